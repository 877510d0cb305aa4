// Statistics against their definitions in long double, over every dataset of bounded length.
#include <cmath>
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
using namespace theoretica;
typedef std::vector<real> V;
typedef long double L;
template<class W> static W conv(const V& v) { W w; w.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) w[i] = v[i]; return w; }
static L meanL(const V& v) { L s = 0; for (double a : v) s += a; return s / v.size(); }
static L tssL(const V& v) { L m = meanL(v), s = 0; for (double a : v) s += (a - m) * (a - m); return s; }
static const double R = 1e-9, T = 1e-10;   // relative and absolute tolerance of all comparisons on moderate data
#define REFUSED(tag, e) do { errno = 0; ISNAN(tag, e); CHECKF(std::string(tag) + "_errno", errno != 0, "no error reported"); } while (0)

// ------------------------------------------------------------------------------------ S01
template<class W> static void desc(const char* ty, const V& v) {
	if (!vf::begin("%s %s", ty, show(v).c_str())) return;
	const W x = conv<W>(v);
	const size_t n = v.size();
	const L m = meanL(v), tss = tssL(v);
	L mx = v[0], mn = v[0], ad = 0, sq = 0; for (double a : v) { mx = std::max(mx, (L) a); mn = std::min(mn, (L) a); ad += fabsl(a - m); sq += (L) a * a; }
	errno = 0;
	NEAR("mean", stats::mean(x), m, R, T);
	NEAR("range", stats::range(x), mx - mn, R, T);
	NEAR("semidispersion", stats::semidispersion(x), (mx - mn) / 2, R, T);
	NEAR("propagate_sum", stats::propagate_sum(x), sqrtl(sq), R, T);
	NEAR("total_sum_squares", stats::total_sum_squares(x), tss, R, T);
	NEAR("absolute_deviation", stats::absolute_deviation(x), ad / n, R, T);
	CHECK("no_error", errno == 0);
	for (unsigned c = 0; c <= n + 1; ++c) {
		real om = 7, ov = 7;
		errno = 0;
		if (n > c) {
			NEAR("variance", stats::variance(x, c), tss / (n - c), R, T);
			NEAR("stdev", stats::stdev(x, c), sqrtl(tss / (n - c)), R, 3e-8);
			stats::moments2(x, om, ov, c);
			NEAR("moments2_mean", om, m, R, T); NEAR("moments2_variance", ov, tss / (n - c), R, T);
			NEAR("self_covariance", stats::covariance(x, x, c), tss / (n - c), R, T);
			CHECK("variance_error", errno == 0);
		} else {
			REFUSED("variance_few", stats::variance(x, c)); REFUSED("stdev_few", stats::stdev(x, c));
			errno = 0; stats::moments2(x, om, ov, c); ISNAN("moments2_few", om); ISNAN("moments2_few", ov); CHECK("moments2_few_errno", errno != 0);
			REFUSED("covariance_few", stats::covariance(x, x, c));
		}
	}
	if (n > 1) {
		const L var = tss / (n - 1), sd = sqrtl(var);
		NEAR("variance_default", stats::variance(x), var, R, T);
		NEAR("stdev_default", stats::stdev(x), sd, R, 3e-8);
		NEAR("stdom", stats::stdom(x), sqrtl(var / n), R, 3e-8);
		if (fabsl(m) > 1e-6) { errno = 0; NEAR("relative_error", stats::standard_relative_error(x), sqrtl(var / n) / fabsl(m), R, 3e-8); CHECK("relative_error_errno", errno == 0); }
		else if (m == 0) { bool exact = true; L s = 0; for (double a : v) { s += a; if (a != std::floor(a)) exact = false; } if (exact && s == 0) REFUSED("relative_error_null", stats::standard_relative_error(x)); }
		if (tss > 1e-6) {
			L sk = 0, ku = 0; for (double a : v) { L z = (a - m) / sd; sk += z * z * z; ku += z * z * z * z; }
			NEAR("skewness", stats::skewness(x), sk / n, 1e-8, 1e-8);
			NEAR("kurtosis", stats::kurtosis(x), ku / n - 3, 1e-8, 1e-8);
			W z = stats::normalize_z_score(x);
			EQ("z_score_size", z.size(), n);
			L zs = 0, z2 = 0; for (size_t i = 0; i < n; ++i) { NEAR("normalize_z_score", z[i], (v[i] - m) / sd, 1e-8, 1e-8); NEAR("z_score", stats::z_score(v[i], (double) m, (double) sd), (v[i] - m) / sd, 1e-8, 1e-8); zs += z[i]; z2 += (L) z[i] * z[i]; EQ("z_source_unchanged", x[i], v[i]); }
			NEAR("z_mean", zs, 0, 0, 1e-7); NEAR("z_variance", z2 / (n - 1), 1, 1e-7, 0);
			for (unsigned k = 0; k <= n; ++k) {
				L num = 0; for (size_t i = 0; i + k < n; ++i) num += (v[i] - m) * (v[i + k] - m);
				errno = 0;
				NEAR("autocorrelation", stats::autocorrelation(x, k), num / tss, R, 1e-9);
				if (k == 1) NEAR("autocorrelation_default", stats::autocorrelation(x), num / tss, R, 1e-9);
				CHECK("autocorrelation_errno", errno == 0);
			}
			REFUSED("autocorrelation_lag", stats::autocorrelation(x, n + 1));
		}
	}
}
SECTION(s01_single) {
	std::vector<real> a = {-3, -1, 0, 0.5, 2, 5};
	words_upto(a, 1, vf::thorough() ? 7 : 5, [&](const V& v) { desc<std::vector<real>>("std::vector", v); });
	words_upto(a, 1, vf::thorough() ? 6 : 4, [&](const V& v) { desc<vec<real>>("vec", v); });
	// a large common offset: one-pass formulas must not cancel
	std::vector<real> o = {1048576, 1048577, 1048580.5};
	words_upto(o, 1, vf::thorough() ? 7 : 5, [&](const V& v) { desc<std::vector<real>>("offset", v); });
	if (vf::begin("empty")) {
		V e;
		REFUSED("mean_empty", stats::mean(e)); REFUSED("tss_empty", stats::total_sum_squares(e)); REFUSED("variance_empty", stats::variance(e, 0));
		REFUSED("stdom_empty", stats::stdom(e)); REFUSED("autocorrelation_empty", stats::autocorrelation(e, 0)); REFUSED("range_empty", stats::range(e));
		REFUSED("skewness_empty", stats::skewness(e)); REFUSED("kurtosis_empty", stats::kurtosis(e));
	}
}
SECTION(s01_long) {
	// every length: a linear ramp, an alternating and a constant dataset have closed forms
	for (unsigned n = 2; n <= (vf::thorough() ? 3000u : 600u); ++n) for (int k = 0; k < 3; ++k) {
		if (!vf::begin("length %u family %d", n, k)) continue;
		V v(n); for (unsigned i = 0; i < n; ++i) v[i] = k == 0 ? i : k == 1 ? (i % 2 ? -1.0 : 1.0) : 4.25;
		L tss = k == 0 ? (L) n * ((L) n * n - 1) / 12 : k == 1 ? (n % 2 ? n - 1.0L / n : (L) n) : 0;
		NEAR("ramp_tss", stats::total_sum_squares(v), tss, 1e-10, 1e-9);
		NEAR("ramp_variance", stats::variance(v), tss / (n - 1), 1e-10, 1e-9);
		NEAR("ramp_mean", stats::mean(v), k == 0 ? (n - 1) / 2.0L : k == 1 ? (n % 2 ? 1.0L / n : 0) : 4.25L, 1e-11, 1e-12);
		if (k == 1 && n % 2 == 0) { NEAR("alternating_lag1", stats::autocorrelation(v, 1), -(L) (n - 1) / n, 1e-10, 0); NEAR("alternating_lag2", stats::autocorrelation(v, 2), (L) (n - 2) / n, 1e-10, 1e-12); }
		if (k == 0) { NEAR("ramp_skew", stats::skewness(v), 0, 0, 1e-9); NEAR("ramp_corr", stats::correlation_coefficient(v, v), 1, 1e-9, 0); }
	}
}
SECTION(s01_pairs) {
	std::vector<real> a = {-2, 0, 0.5, 3};
	for (size_t n = 1; n <= (vf::thorough() ? 4u : 3u); ++n) words(a, n, [&](const V& x) { words(a, n, [&](const V& y) {
		if (!vf::begin("pair %s %s", show(x).c_str(), show(y).c_str())) return;
		const vec<real> xv = conv<vec<real>>(x);
		L mx = meanL(x), my = meanL(y), c = 0, pp = 0; bool zero = false;
		for (size_t i = 0; i < n; ++i) { c += (x[i] - mx) * (y[i] - my); if (y[i] == 0) zero = true; else pp += ((L) x[i] / y[i]) * ((L) x[i] / y[i]); }
		for (unsigned k = 0; k < n; ++k) { errno = 0; NEAR("covariance", stats::covariance(x, y, k), c / (n - k), R, T); NEAR("covariance_mixed", stats::covariance(xv, y, k), c / (n - k), R, T); CHECK("covariance_errno", errno == 0); }
		if (n > 1) {
			NEAR("covariance_default", stats::covariance(x, y), c / (n - 1), R, T);
			L d = sqrtl(tssL(x) * tssL(y));
			if (d > 1e-6) { double r = stats::correlation_coefficient(x, y); NEAR("correlation", r, c / d, 1e-8, 1e-9); CHECK("correlation_bound", std::fabs(r) <= 1 + 1e-9); }
		}
		if (zero) REFUSED("propagate_product_zero", stats::propagate_product(x, y));
		else { errno = 0; NEAR("propagate_product", stats::propagate_product(x, y), sqrtl(pp), R, 3e-8); CHECK("propagate_product_errno", errno == 0); }
	}); });
	// a large common offset must not cancel
	for (real ox : {1048576., -3e6}) for (real oy : {0., 1048576., 5e6}) for (size_t n = 2; n <= 4; ++n) words(std::vector<real>{0, 1, 4.5}, n, [&](const V& p) { words(std::vector<real>{0, -2, 0.5}, n, [&](const V& q) {
		if (!vf::begin("pair %s + %g, %s + %g", show(p).c_str(), ox, show(q).c_str(), oy)) return; V x = p, y = q; for (auto& v : x) v += ox; for (auto& v : y) v += oy; L mp = meanL(p), mq = meanL(q), c = 0; for (size_t i = 0; i < n; ++i) c += (p[i] - mp) * (q[i] - mq); NEAR("covariance_offset", stats::covariance(x, y), c / (n - 1), 1e-6, 1e-6); L d = sqrtl(tssL(p) * tssL(q)); if (d > 1e-6) NEAR("correlation_offset", stats::correlation_coefficient(x, y), c / d, 1e-6, 1e-6); }); });
	for (size_t n = 0; n <= 4; ++n) for (size_t m = 0; m <= 4; ++m) if (n != m && vf::begin("sizes %zu %zu", n, m)) {
		V x(n, 1.5), y(m, 2.5);
		REFUSED("covariance_sizes", stats::covariance(x, y, 0)); REFUSED("correlation_sizes", stats::correlation_coefficient(x, y)); REFUSED("product_sizes", stats::propagate_product(x, y));
	}
}
SECTION(s01_gauss) {
	// moments of a Gaussian: E[(x-mu)^k] for every polynomial of bounded degree
	std::vector<real> a = {-1, 0, 2};
	for (double mu : {-2.0, 0.0, 0.5, 3.0}) for (double sg : {0.25, 1.0, 2.0}) words_upto(a, 1, 5, [&](const V& c) {
		if (!vf::begin("gaussian mu %g sigma %g poly %s", mu, sg, show(c).c_str())) return;
		L want = 0, s2 = (L) sg * sg, M[5] = {1, mu, mu * mu + s2, mu * mu * mu + 3 * mu * s2, (L) mu * mu * mu * mu + 6 * mu * mu * s2 + 3 * s2 * s2};
		for (size_t i = 0; i < c.size(); ++i) want += c[i] * M[i];
		NEAR("gaussian_expectation", stats::gaussian_expectation([&](real x) { real r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }, mu, sg), want, 1e-9, 1e-9);
	});
}

// ------------------------------------------------------------------------------------ S02
static void compare(const char* tag, histogram& h, const V& in, unsigned nb, double lo, double hi) {
	std::string t = tag;
	EQ(t + "_number", h.number(), in.size());
	auto b = h.bins();
	EQ(t + "_bin_count", b.size(), nb);
	uint64_t tot = 0; for (unsigned c : b) tot += c;
	EQ(t + "_conserved", tot, in.size());
	// values well inside a bin must be counted there; values within one rounding of an edge may be in either
	std::vector<unsigned> sure(nb, 0), may(nb, 0);
	const L w = ((L) hi - lo) / nb;
	for (double x : in) {
		L q = ((L) x - lo) / w;
		L r = q * 1e-12L + 1e-12L;
		long i0 = (long) floorl(q - r), i1 = (long) floorl(q + r);
		i0 = std::min<long>(std::max<long>(i0, 0), nb - 1); i1 = std::min<long>(std::max<long>(i1, 0), nb - 1);
		if (x >= hi) i0 = i1 = nb - 1;
		if (x <= lo && hi > lo) i0 = i1 = 0;
		for (long i = i0; i <= i1; ++i) may[i]++;
		if (i0 == i1) sure[i0]++;
	}
	for (unsigned i = 0; i < nb; ++i) {
		CHECKF(t + "_bin", b[i] >= sure[i] && b[i] <= may[i], "bin %u holds %u, expected %u..%u", i, b[i], sure[i], may[i]);
		EQ(t + "_operator", h[i], b[i]);
	}
	if (in.size()) {
		double mx = *std::max_element(in.begin(), in.end()), mn = *std::min_element(in.begin(), in.end());
		double sc = std::max(std::fabs(lo), std::fabs(hi));
		EQ(t + "_max", h.max(), mx); EQ(t + "_min", h.min(), mn);
		EQ(t + "_max_free", th::max(h), mx); EQ(t + "_min_free", th::min(h), mn);
		NEAR(t + "_mean", h.mean(), meanL(in), 1e-10, 1e-12 * sc); NEAR(t + "_mean_free", stats::mean(h), meanL(in), 1e-10, 1e-12 * sc);
		L tss = tssL(in);
		NEAR(t + "_tss", h.tss(), tss, 1e-9, 1e-12 * sc * sc); NEAR(t + "_tss_free", stats::tss(h), tss, 1e-9, 1e-12 * sc * sc);
		if (in.size() > 1) { errno = 0; NEAR(t + "_variance", stats::variance(h), tss / (in.size() - 1), 1e-9, 1e-12 * sc * sc); NEAR(t + "_stdev", stats::stdev(h), sqrtl(tss / (in.size() - 1)), 1e-6, 1e-6 * sc); CHECK(t + "_variance_errno", errno == 0); }
	} else CHECK(t + "_empty_string", h.to_string().empty());
	if (in.size() < 2) { REFUSED(t + "_variance_few", stats::variance(h)); REFUSED(t + "_stdev_few", stats::stdev(h)); }
}
struct Range { double lo, hi; };
SECTION(s02_sequences) {
	const Range rs[] = {{0, 1}, {-1, 2}, {-1e6, 1e-11}, {1e-100, 3e-100}, {-0.1, 0.1}, {0.1, 0.7}, {-1e300, 1e300}};
	for (auto r : rs) for (unsigned nb : {1u, 2u, 3u, 7u}) {
		L w = ((L) r.hi - r.lo) / nb;
		V a = {r.lo, r.hi, (double) (r.lo + w), (double) (r.lo + (nb - 1) * w + w / 2), (double) (r.lo + w / 4), std::nextafter(r.hi, r.lo), std::nextafter(r.lo, r.hi),
			std::nextafter(r.hi, INFINITY), std::nextafter(r.lo, -INFINITY), 0.0, NAN, INFINITY, -INFINITY};
		if (nb == 7) a.resize(8);
		words_upto(a, 0, vf::thorough() ? 4 : 3, [&](const V& ins) {
			if (!vf::begin("range [%g,%g] bins %u insert %s", r.lo, r.hi, nb, show(ins).c_str())) return;
			histogram h(nb, r.lo, r.hi);
			V in;
			for (double x : ins) {
				h.insert(x);
				if (x >= r.lo && x <= r.hi) in.push_back(x);
				EQ("running_number", h.number(), in.size());
				if (in.size()) EQ("running_max", h.max(), *std::max_element(in.begin(), in.end()));
			}
			if (std::fabs(r.hi) < 1e100) compare("insert", h, in, nb, r.lo, r.hi);
			else { uint64_t tot = 0; for (unsigned c : h.bins()) tot += c; EQ("insert_huge_conserved", tot, in.size()); }
			// as a step function
			auto b = h.bins();
			for (double x : a) {
				double y = h(x);
				if (!(x >= r.lo && x <= r.hi)) EQ("outside", y, 0.0);
				else { bool ok = false; for (unsigned c : b) if (c == y) ok = true; CHECK("inside_is_bin", ok); CHECK("index_bound", h.index(x) < nb); EQ("evaluate", y, (double) b[h.index(x)]); }
			}
			if (std::fabs(r.hi) < 1e100) for (unsigned i = 0; i < nb; ++i) { double mid = (double) (r.lo + (i + 0.5L) * w); EQ("mid_index", h.index(mid), i); EQ("mid_value", h(mid), (double) b[i]); }
			vf::state(vf::mix(h.number(), vf::mix(b[0], b[nb - 1])));
		});
	}
}
SECTION(s02_dataset) {
	V a = {-1, 0, 0.1, 0.7, 2};
	words_upto(a, 1, vf::thorough() ? 7 : 5, [&](const V& v) {
		double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
		for (unsigned nb : {0u, 1u, 2u, 3u, 5u}) {
			if (!vf::begin("dataset %s bins %u", show(v).c_str(), nb)) continue;
			histogram h(v, nb);
			unsigned n = nb ? nb : (unsigned) std::floor(std::sqrt((double) v.size()));
			compare("dataset", h, v, n, lo, hi);
			histogram g(conv<vec<real>>(v), nb);
			CHECK("vec_dataset_same", g.bins() == h.bins());
			if (nb == 0) { histogram d(v); CHECK("default_bins", d.bins() == h.bins()); }
			// the same data inserted one by one gives the same histogram, in any order
			histogram k(n, lo, hi); for (size_t i = v.size(); i-- > 0;) k.insert(v[i]);
			CHECK("insertion_order_bins", k.bins() == h.bins());
			// text: one line per bin, abscissa then frequency
			for (int norm = 0; norm < 2; ++norm) for (int low = 0; low < 2; ++low) {
				std::istringstream is(h.to_string(" ", norm, low)); double x, y; unsigned i = 0; auto b = h.bins();
				while (is >> x >> y) { if (i < n) { NEAR("text_x", x, lo + (i + (low ? 0.0 : 0.5)) * (hi - lo) / n, 2e-5, 1e-5); NEAR("text_y", y, norm ? (double) b[i] / v.size() : b[i], 2e-5, 0); } ++i; }
				EQ("text_lines", i, n);
			}
		}
	});
}
SECTION(s02_uniform) {
	// every bin count: equally spaced data fill the bins evenly
	for (unsigned nb = 1; nb <= (vf::thorough() ? 2000u : 400u); ++nb) for (Range r : {Range{0, 1}, Range{-3, 5}, Range{100, 101}}) {
		if (!vf::begin("bins %u range [%g,%g]", nb, r.lo, r.hi)) continue;
		histogram h(nb, r.lo, r.hi);
		for (unsigned i = 0; i < nb; ++i) for (unsigned k = 0; k <= i % 3; ++k) h.insert(r.lo + (i + 0.5) * (r.hi - r.lo) / nb);
		auto b = h.bins(); bool ok = b.size() == nb; for (unsigned i = 0; ok && i < nb; ++i) ok = b[i] == i % 3 + 1;
		CHECK("uniform_fill", ok);
	}
}

// ------------------------------------------------------------------------------------ S03
struct Fit { L A, B, vA, vB, cAB, chi; };
static bool wfit(const V& x, const V& y, const V& w, Fit& f) {
	L sw = 0, mx = 0, my = 0; size_t n = x.size();
	for (size_t i = 0; i < n; ++i) { sw += w[i]; mx += (L) w[i] * x[i]; my += (L) w[i] * y[i]; }
	mx /= sw; my /= sw;
	L sxx = 0, sxy = 0; for (size_t i = 0; i < n; ++i) { sxx += w[i] * (x[i] - mx) * (x[i] - mx); sxy += w[i] * (x[i] - mx) * (y[i] - my); }
	if (sxx < 1e-9L) return false;
	f.B = sxy / sxx; f.A = my - f.B * mx; f.vB = 1 / sxx; f.vA = 1 / sw + mx * mx / sxx; f.cAB = -mx / sxx;
	f.chi = 0; for (size_t i = 0; i < n; ++i) { L r = y[i] - f.A - f.B * x[i]; f.chi += w[i] * r * r; }
	return true;
}
static L Qg(L a, L x) {
	if (x <= 0) return 1;
	if (x < a + 1) { L s = 1 / a, t = s; for (int n = 1; n < 100000; n++) { t *= x / (a + n); s += t; if (t < s * 1e-19L) break; } return 1 - s * expl(-x + a * logl(x) - lgammal(a)); }
	L b = x + 1 - a, c = 1e300L, d = 1 / b, h = d;
	for (int i = 1; i < 100000; i++) { L an = -i * (i - a); b += 2; d = an * d + b; if (fabsl(d) < 1e-300L) d = 1e-300L; c = b + an / c; if (fabsl(c) < 1e-300L) c = 1e-300L; d = 1 / d; L del = d * c; h *= del; if (fabsl(del - 1) < 1e-18L) break; }
	return h * expl(-x + a * logl(x) - lgammal(a));
}
template<class W> static void fitcase(const char* ty, const V& xs, const V& ys) {
	const size_t n = xs.size();
	const W x = conv<W>(xs), y = conv<W>(ys);
	Fit f; V one(n, 1.0);
	const bool ok = wfit(xs, ys, one, f);
	const double r = 1e-8, t = 1e-8;
	real A = 7, B = 7, sA = 7, sB = 7; mat2 C;
	if (!ok) {
		errno = 0; regression::ols_linear(x, y, A, B); ISNAN("degenerate_A", A); ISNAN("degenerate_B", B); CHECK("degenerate_errno", errno != 0);
		A = B = 7; errno = 0; regression::ols_linear(x, y, 0.5, A, B, sA, sB); ISNAN("degenerate_A2", A); ISNAN("degenerate_B2", B); CHECK("degenerate_errno2", errno != 0);
		A = B = 7; errno = 0; regression::ols_linear(x, y, 0.5, A, B, C); ISNAN("degenerate_A3", A); ISNAN("degenerate_B3", B); CHECK("degenerate_errno3", errno != 0);
		A = B = 7; errno = 0; regression::wls_linear(x, y, conv<W>(one), A, B, C); ISNAN("degenerate_A4", A); ISNAN("degenerate_B4", B); CHECK("degenerate_errno4", errno != 0);
		errno = 0; regression::linear_model m(x, y); ISNAN("degenerate_model_A", m.A); ISNAN("degenerate_model_B", m.B); CHECK("degenerate_model_errno", errno != 0);
		return;
	}
	errno = 0;
	regression::ols_linear(x, y, A, B);
	NEAR("ols_A", A, f.A, r, t); NEAR("ols_B", B, f.B, r, t);
	for (double s : {0.5, 2.0}) {
		A = B = sA = sB = 7;
		regression::ols_linear(x, y, s, A, B, sA, sB);
		NEAR("ols_s_A", A, f.A, r, t); NEAR("ols_s_B", B, f.B, r, t); NEAR("ols_sigma_A", sA, s * sqrtl(f.vA), r, t); NEAR("ols_sigma_B", sB, s * sqrtl(f.vB), r, t);
		A = B = 7; regression::ols_linear(x, y, s, A, B, C);
		NEAR("ols_c_A", A, f.A, r, t); NEAR("ols_c_B", B, f.B, r, t);
		NEAR("ols_cov00", C(0, 0), s * s * f.vA, r, t); NEAR("ols_cov11", C(1, 1), s * s * f.vB, r, t); NEAR("ols_cov01", C(0, 1), s * s * f.cAB, r, t); NEAR("ols_cov10", C(1, 0), s * s * f.cAB, r, t);
		NEAR("ols_linear_sigma_A", regression::ols_linear_sigma_A(x, y, s), s * sqrtl(f.vA), r, t);
		NEAR("ols_linear_sigma_B", regression::ols_linear_sigma_B(x, y, s), s * sqrtl(f.vB), r, t);
	}
	NEAR("ols_linear_intercept", regression::ols_linear_intercept(x, y), f.A, r, t);
	NEAR("ols_linear_slope", regression::ols_linear_slope(x, y), f.B, r, t);
	if (n >= 3) {
		const double tc = 3e-7;
		NEAR("ols_linear_error", regression::ols_linear_error(x, y, (double) f.A, (double) f.B), sqrtl(f.chi / (n - 2)), 1e-7, tc);
		// any other line leaves a larger error
		for (double da : {-0.25, 0.0, 0.25}) for (double db : {-0.25, 0.0, 0.25}) {
			double e0 = regression::ols_linear_error(x, y, A, B), e1 = regression::ols_linear_error(x, y, A + da, B + db);
			CHECK("least_squares", e1 >= e0 - 1e-7);
		}
		regression::linear_model m(x, y);
		NEAR("model_A", m.A, f.A, r, t); NEAR("model_B", m.B, f.B, r, t); NEAR("model_err", m.err, sqrtl(f.chi / (n - 2)), 1e-7, tc); EQ("model_ndf", m.ndf, n - 2);
		ISNAN("model_no_sigma_A", m.sigma_A); ISNAN("model_no_sigma_B", m.sigma_B); ISNAN("model_no_chi", m.chi_squared); ISNAN("model_no_p", m.p_value);
		for (double q : {-1.0, 0.0, 2.5}) NEAR("model_eval", m(q), f.A + f.B * q, r, t);
		for (double s : {0.5, 2.0}) {
			regression::linear_model k(x, y, (real) s);
			NEAR("model_s_A", k.A, f.A, r, t); NEAR("model_s_B", k.B, f.B, r, t); NEAR("model_s_sigma_A", k.sigma_A, s * sqrtl(f.vA), r, t); NEAR("model_s_sigma_B", k.sigma_B, s * sqrtl(f.vB), r, t);
			NEAR("model_s_err", k.err, sqrtl(f.chi / (n - 2)), 1e-7, tc); EQ("model_s_ndf", k.ndf, n - 2);
			NEAR("model_s_chi", k.chi_squared, f.chi / (s * s), 1e-7, 1e-7);
			NEAR("model_s_p", k.p_value, Qg((n - 2) / 2.0L, f.chi / (s * s) / 2), 1e-6, f.chi < 1e-9L ? 1e-6 : 1e-7);
			NEAR("model_s_cov", k.covar_mat(0, 1), s * s * f.cAB, r, t);
			std::string txt = k.to_string(); CHECK("model_text", txt.find("p-value") != std::string::npos && txt.find("Chi-squared") != std::string::npos);
		}
	}
	CHECK("regression_errno", errno == 0);
}
SECTION(s03_ols) {
	V ax = {-2, 0, 0.5, 3}, ay = {-1, 0, 2.5};
	for (size_t n = 2; n <= (vf::thorough() ? 5u : 4u); ++n) words(ax, n, [&](const V& x) { words(ay, n, [&](const V& y) {
		if (!vf::begin("ols %s %s", show(x).c_str(), show(y).c_str())) return;
		fitcase<std::vector<real>>("std::vector", x, y);
		if (n <= 3) fitcase<vec<real>>("vec", x, y);
	}); });
}
SECTION(s03_wls) {
	V ax = {-2, 0, 3}, ay = {-1, 0, 2.5}, as = {0.5, 1, 4};
	for (size_t n = 2; n <= (vf::thorough() ? 4u : 3u); ++n) words(ax, n, [&](const V& x) { words(ay, n, [&](const V& y) { words(as, n, [&](const V& s) {
		if (!vf::begin("wls %s %s %s", show(x).c_str(), show(y).c_str(), show(s).c_str())) return;
		V w(n); for (size_t i = 0; i < n; ++i) w[i] = 1 / (s[i] * s[i]);
		Fit f; real A = 7, B = 7; mat2 C; errno = 0;
		regression::wls_linear(x, y, w, A, B, C);
		if (!wfit(x, y, w, f)) { ISNAN("wls_degenerate_A", A); ISNAN("wls_degenerate_B", B); CHECK("wls_degenerate_errno", errno != 0); return; }
		const double r = 1e-8, t = 1e-8;
		NEAR("wls_A", A, f.A, r, t); NEAR("wls_B", B, f.B, r, t); NEAR("wls_cov00", C(0, 0), f.vA, r, t); NEAR("wls_cov11", C(1, 1), f.vB, r, t); NEAR("wls_cov01", C(0, 1), f.cAB, r, t); NEAR("wls_cov10", C(1, 0), f.cAB, r, t);
		NEAR("wls_linear_intercept", regression::wls_linear_intercept(x, y, w), f.A, r, t); NEAR("wls_linear_slope", regression::wls_linear_slope(x, y, w), f.B, r, t);
		if (n >= 3) {
			regression::linear_model m(x, y, s);
			NEAR("wmodel_A", m.A, f.A, r, t); NEAR("wmodel_B", m.B, f.B, r, t); NEAR("wmodel_sigma_A", m.sigma_A, sqrtl(f.vA), r, t); NEAR("wmodel_sigma_B", m.sigma_B, sqrtl(f.vB), r, t);
			NEAR("wmodel_chi", m.chi_squared, f.chi, 1e-7, 1e-7); EQ("wmodel_ndf", m.ndf, n - 2);
			NEAR("wmodel_p", m.p_value, Qg((n - 2) / 2.0L, f.chi / 2), 1e-6, f.chi < 1e-9L ? 1e-6 : 1e-7);
			NEAR("chi_square_linear", stats::chi_square_linear(x, y, s, A, B), f.chi, 1e-7, 1e-9); NEAR("reduced_chi_square_linear", stats::reduced_chi_square_linear(x, y, s, A, B), f.chi / (n - 2), 1e-7, 1e-9);
			L e = 0; for (size_t i = 0; i < n; ++i) e += (y[i] - f.A - f.B * x[i]) * (y[i] - f.A - f.B * x[i]);
			NEAR("wmodel_err", m.err, sqrtl(e / (n - 2)), 1e-7, 3e-7);
		} else { regression::linear_model m(x, y, s); NEAR("wmodel_two_A", m.A, f.A, r, t); NEAR("wmodel_two_B", m.B, f.B, r, t); NEAR("wmodel_two_sigma_A", m.sigma_A, sqrtl(f.vA), r, t); NEAR("wmodel_two_sigma_B", m.sigma_B, sqrtl(f.vB), r, t); errno = 0; }
		if (n < 3) REFUSED("reduced_few", stats::reduced_chi_square_linear(x, y, s, A, B));
		// through the origin
		L sxx = 0, sxy = 0, uxx = 0, uxy = 0; for (size_t i = 0; i < n; ++i) { sxx += (L) w[i] * x[i] * x[i]; sxy += (L) w[i] * x[i] * y[i]; uxx += (L) x[i] * x[i]; uxy += (L) x[i] * y[i]; }
		real b = 7, sb = 7; regression::wls_linear_orig(x, y, w, b, sb); NEAR("wls_orig", b, sxy / sxx, r, t); NEAR("wls_orig_sigma", sb, 1 / sqrtl(sxx), r, t);
		for (double q : {0.5, 2.0}) { regression::ols_linear_orig(x, y, (real) q, b, sb); NEAR("ols_orig", b, uxy / uxx, r, t); NEAR("ols_orig_sigma", sb, q / sqrtl(uxx), r, t); }
	}); }); });
}
SECTION(s03_deming) {
	// errors on both axes: the slope minimises sum (y-A-Bx)^2/(sy^2+B^2 sx^2)
	V ax = {-2, 0, 0.5, 3}, ay = {-1, 0, 2.5};
	for (size_t n = 3; n <= (vf::thorough() ? 5u : 4u); ++n) words(ax, n, [&](const V& x) { words(ay, n, [&](const V& y) {
		L mx = meanL(x), my = meanL(y), sxx = 0, syy = 0, sxy = 0; for (size_t i = 0; i < n; ++i) { sxx += (x[i] - mx) * (x[i] - mx); syy += (y[i] - my) * (y[i] - my); sxy += (x[i] - mx) * (y[i] - my); }
		if (fabsl(sxy) < 1e-9L) return;
		for (double sx : {0.5, 1.0}) for (double sy : {0.5, 2.0}) {
			if (!vf::begin("deming %s %s sx %g sy %g", show(x).c_str(), show(y).c_str(), sx, sy)) continue;
			L D = sx * sx * syy - sy * sy * sxx, B = (D + sqrtl(D * D + 4 * (L) sx * sx * sy * sy * sxy * sxy)) / (2 * (L) sx * sx * sxy), A = my - B * mx;
			// the closed form is the minimum: check against the objective itself
			auto obj = [&](L b) { L a = my - b * mx, s = 0; for (size_t i = 0; i < n; ++i) s += (y[i] - a - b * x[i]) * (y[i] - a - b * x[i]); return s / ((L) sy * sy + b * b * sx * sx); };
			real a = 7, b = 7; mat2 C; errno = 0;
			regression::wls_linear(x, y, (real) sx, (real) sy, a, b, C);
			NEAR("deming_slope", b, B, 1e-7, 1e-7); NEAR("deming_intercept", a, A, 1e-7, 1e-7);
			for (L d : {-0.5L, -0.01L, 0.01L, 0.5L}) CHECK("deming_minimum", obj(b + d) >= obj(b) - 1e-9L);
			regression::linear_model m(x, y, (real) sx, (real) sy);
			NEAR("deming_model_A", m.A, A, 1e-7, 1e-7); NEAR("deming_model_B", m.B, B, 1e-7, 1e-7); EQ("deming_ndf", m.ndf, n - 2);
			NEAR("deming_chi", m.chi_squared, obj(B), 1e-6, 1e-7);
			NEAR("deming_p", m.p_value, Qg((n - 2) / 2.0L, obj(B) / 2), 1e-5, obj(B) < 1e-8L ? 1e-5 : 1e-6);
			CHECK("deming_errno", errno == 0);
		}
	}); });
}
SECTION(s03_exact) {
	// points on a line are recovered exactly (to rounding), for every length
	for (size_t n = 3; n <= (vf::thorough() ? 400u : 120u); ++n) for (double A : {-3.0, 0.0, 0.5}) for (double B : {-2.0, 0.25, 10.0}) {
		if (!vf::begin("line %g %g length %zu", A, B, n)) continue;
		V x(n), y(n), s(n); for (size_t i = 0; i < n; ++i) { x[i] = 0.5 * i - 1; y[i] = A + B * x[i]; s[i] = i % 2 ? 0.5 : 2; }
		double t = 1e-11 * n * n;
		regression::linear_model m(x, y), k(x, y, (real) 0.5), w(x, y, s), d(x, y, (real) 0.5, (real) 0.5);
		for (auto* q : {&m, &k, &w, &d}) { NEAR("exact_A", q->A, A, t, t); NEAR("exact_B", q->B, B, t, t); EQ("exact_ndf", q->ndf, n - 2); }
		NEAR("exact_p", k.p_value, 1, 1e-6, 0); NEAR("exact_err", m.err, 0, 0, 1e-7 * n);
	}
}
SECTION(s03_refused) {
	for (size_t n = 0; n <= 4; ++n) for (size_t m = 0; m <= 4; ++m) for (size_t k = 0; k <= 4; ++k) {
		V x, y, w; for (size_t i = 0; i < n; ++i) x.push_back(i * 1.5); for (size_t i = 0; i < m; ++i) y.push_back(i - 1.0); for (size_t i = 0; i < k; ++i) w.push_back(1.0 + i);
		if (!vf::begin("sizes %zu %zu %zu", n, m, k)) continue;
		real A, B, sA, sB; mat2 C;
		if (n != m) {
			A = B = 7; errno = 0; regression::ols_linear(x, y, A, B); ISNAN("sizes_A", A); ISNAN("sizes_B", B); CHECK("sizes_errno", errno != 0);
			A = B = 7; errno = 0; regression::ols_linear(x, y, 1.0, A, B, sA, sB); ISNAN("sizes_A2", A); ISNAN("sizes_B2", B); CHECK("sizes_errno2", errno != 0);
			A = B = 7; errno = 0; regression::ols_linear(x, y, 1.0, A, B, C); ISNAN("sizes_A3", A); ISNAN("sizes_B3", B); CHECK("sizes_errno3", errno != 0);
			A = B = 7; errno = 0; regression::wls_linear(x, y, (real) 1.0, (real) 1.0, A, B, C); ISNAN("sizes_A5", A); ISNAN("sizes_B5", B); CHECK("sizes_errno5", errno != 0);
			B = 7; errno = 0; regression::ols_linear_orig(x, y, 1.0, B, sB); ISNAN("sizes_orig", B); CHECK("sizes_orig_errno", errno != 0);
			REFUSED("sizes_error", regression::ols_linear_error(x, y, 1.0, 1.0)); REFUSED("sizes_intercept", regression::ols_linear_intercept(x, y)); REFUSED("sizes_slope", regression::ols_linear_slope(x, y));
			errno = 0; regression::linear_model p(x, y); ISNAN("sizes_model", p.A); ISNAN("sizes_model", p.B); CHECK("sizes_model_errno", errno != 0);
			errno = 0; regression::linear_model q(x, y, (real) 1.0); ISNAN("sizes_model2", q.A); ISNAN("sizes_model2", q.B); CHECK("sizes_model2_errno", errno != 0);
			errno = 0; regression::linear_model u(x, y, (real) 1.0, (real) 1.0); ISNAN("sizes_model4", u.A); ISNAN("sizes_model4", u.B); CHECK("sizes_model4_errno", errno != 0);
		}
		if (n != m || n != k) {
			A = B = 7; errno = 0; regression::wls_linear(x, y, w, A, B, C); ISNAN("sizes_A4", A); ISNAN("sizes_B4", B); CHECK("sizes_errno4", errno != 0);
			B = 7; errno = 0; regression::wls_linear_orig(x, y, w, B, sB); ISNAN("sizes_worig", B); CHECK("sizes_worig_errno", errno != 0);
			REFUSED("sizes_wintercept", regression::wls_linear_intercept(x, y, w)); REFUSED("sizes_wslope", regression::wls_linear_slope(x, y, w));
			REFUSED("sizes_chi", stats::chi_square(x, y, w)); REFUSED("sizes_chilin", stats::chi_square_linear(x, y, w, 1.0, 1.0)); REFUSED("sizes_redchi", stats::reduced_chi_square_linear(x, y, w, 1.0, 1.0));
			errno = 0; regression::linear_model p(x, y, w); ISNAN("sizes_model3", p.A); ISNAN("sizes_model3", p.B); CHECK("sizes_model3_errno", errno != 0);
		}
		if (n == m && n <= 2) { errno = 0; regression::linear_model p(x, y); ISNAN("few_model", p.A); CHECK("few_model_errno", errno != 0); errno = 0; regression::linear_model q(x, y, (real) 1.0); ISNAN("few_model2", q.A); CHECK("few_model2_errno", errno != 0); }
	}
	if (vf::begin("null sigma")) { V x = {0, 1, 2}, y = {1, 1, 2}; errno = 0; regression::linear_model q(x, y, (real) 0.0); ISNAN("null_sigma", q.A); CHECK("null_sigma_errno", errno != 0);
		V s0 = {1, 0, 1}; REFUSED("null_sigma_chi", stats::chi_square(x, y, s0)); REFUSED("null_sigma_chilin", stats::chi_square_linear(x, y, s0, 0.0, 1.0)); }
	if (vf::begin("null abscissas")) { V x = {0, 0, 0}, y = {1, 1, 2}, w = {1, 1, 1}; real B = 7, s; errno = 0; regression::ols_linear_orig(x, y, 1.0, B, s); ISNAN("null_x", B); CHECK("null_x_errno", errno != 0); B = 7; errno = 0; regression::wls_linear_orig(x, y, w, B, s); ISNAN("null_xw", B); CHECK("null_xw_errno", errno != 0); }
}

// ------------------------------------------------------------------------------------ S04
namespace D = distribution;
static V grid() { V g; for (int i = -24; i <= 48; ++i) g.push_back(i * 0.25); g.push_back(1e-6); g.push_back(-1e-6); g.push_back(30); g.push_back(-30); return g; }
#define PDF(tag, got, want) do { double g1_ = (got); NEAR(tag, g1_, (want), 1e-8, 1e-14); CHECKF(std::string(tag) + "_sign", g1_ >= 0, "density %g", g1_); } while (0)
#define WRAP(tag, call, direct) do { errno = 0; NEAR(std::string(tag) + "_theta", call, direct, 1e-12, 1e-300); CHECK(std::string(tag) + "_theta_errno", errno == 0); } while (0)
static vec<real> th1(real a) { vec<real> t; t.resize(1); t[0] = a; return t; }
static vec<real> th2(real a, real b) { vec<real> t; t.resize(2); t[0] = a; t[1] = b; return t; }
SECTION(s04_continuous) {
	for (double x : grid()) {
		for (double m : {-2.0, 0.0, 0.5, 3.0}) for (double s : {0.25, 1.0, 2.5}) {
			if (!vf::begin("x %g location %g scale %g", x, m, s)) continue;
			L z = ((L) x - m) / s;
			PDF("gaussian", D::gaussian(x, m, s), expl(-z * z / 2) / (s * sqrtl(2 * M_PIl))); WRAP("gaussian", D::gaussian(x, th2(m, s)), D::gaussian(x, m, s));
			PDF("cauchy", D::cauchy(x, m, s), 1 / (M_PIl * s * (1 + z * z))); WRAP("cauchy", D::cauchy(x, th2(m, s)), D::cauchy(x, m, s));
			PDF("breit_wigner", D::breit_wigner(x, m, s), s / (2 * M_PIl * (((L) x - m) * (x - m) + (L) s * s / 4))); WRAP("breit_wigner", D::breit_wigner(x, th2(m, s)), D::breit_wigner(x, m, s));
			PDF("laplace", D::laplace(x, m, s), expl(-fabsl(z)) / (2 * s)); WRAP("laplace", D::laplace(x, th2(m, s)), D::laplace(x, m, s));
			if (x > 0) { L q = (logl(x) - m) / s; PDF("log_normal", D::log_normal(x, m, s), expl(-q * q / 2) / (x * s * sqrtl(2 * M_PIl))); WRAP("log_normal", D::log_normal(x, th2(m, s)), D::log_normal(x, m, s)); }
		}
		for (double s : {0.25, 1.0, 2.5, 6.0}) {
			if (!vf::begin("x %g scale %g", x, s)) continue;
			L z = (L) x / s;
			PDF("exponential", D::exponential(x, s), x < 0 ? 0 : s * expl(-s * (L) x)); WRAP("exponential", D::exponential(x, th1(s)), D::exponential(x, s));
			PDF("rayleigh", D::rayleigh(x, s), x < 0 ? 0 : z / s * expl(-z * z / 2)); WRAP("rayleigh", D::rayleigh(x, th1(s)), D::rayleigh(x, s));
			PDF("maxwell", D::maxwell(x, s), x < 0 ? 0 : sqrtl(2 / M_PIl) * z * z / s * expl(-z * z / 2)); WRAP("maxwell", D::maxwell(x, th1(s)), D::maxwell(x, s));
			for (double al : {0.5, 1.0, 2.0, 3.5}) {
				PDF("pareto", D::pareto(x, s, al), x < s ? 0 : al * powl(s, al) / powl(x, al + 1)); WRAP("pareto", D::pareto(x, th2(s, al)), D::pareto(x, s, al));
				if (x > 0) { PDF("gamma", D::gamma(x, al, s), powl(s, al) * powl(x, al - 1) * expl(-s * (L) x) / tgammal(al)); WRAP("gamma", D::gamma(x, th2(al, s)), D::gamma(x, al, s)); }
				if (x > 0 && x < 1) { PDF("beta", D::beta(x, al, s), powl(x, al - 1) * powl(1 - (L) x, s - 1) * tgammal(al + (L) s) / (tgammal(al) * tgammal(s))); WRAP("beta", D::beta(x, th2(al, s)), D::beta(x, al, s)); }
			}
			for (unsigned k = 1; k <= 60; ++k) { PDF("erlang", D::erlang(x, k, s), x < 0 ? 0 : x == 0 ? (k == 1 ? s : 0) : expl(k * logl(s) + (k - 1) * logl(x) - s * (L) x - lgammal(k))); WRAP("erlang", D::erlang(x, th2(k, s)), D::erlang(x, k, s)); }
		}
		for (unsigned k = 1; k <= (vf::thorough() ? 299u : 240u); k += k < 24 || vf::thorough() ? 1 : 12) {
			if (!vf::begin("x %g ndf %u", x, k)) continue;
			L h = k / 2.0L;
			if (x != 0) { L w = x < 0 ? 0 : expl((h - 1) * logl(x) - x / 2.0L - h * logl(2) - lgammal(h)); PDF("chi_squared", D::chi_squared(x, k), w); WRAP("chi_squared", D::chi_squared(x, th1(k)), D::chi_squared(x, k)); PDF("chi_squared_given", D::chi_squared(x, k, (real) tgammal(h)), w); }
			PDF("student", D::student(x, k), expl(lgammal((k + 1) / 2.0L) - lgammal(h) - (k + 1) / 2.0L * logl(1 + (L) x * x / k)) / sqrtl(k * M_PIl)); WRAP("student", D::student(x, th1(k)), D::student(x, k));
		}
	}
}
SECTION(s04_discrete) {
	const double P[] = {0, 0.125, 0.5, 0.9, 1};
	for (double p : P) {
		for (unsigned k = 0; k < 6; ++k) { if (!vf::begin("bernoulli %u %g", k, p)) continue; PDF("bernoulli", D::bernoulli(k, p), k == 0 ? 1 - (L) p : k == 1 ? p : 0); WRAP("bernoulli", D::bernoulli((real) k, th1(p)), D::bernoulli(k, p)); }
		for (unsigned n = 0; n <= 1000; n += n < 80 ? 1 : n < 200 ? 10 : 100) {
			if (!vf::begin("binomial n %u p %g", n, p)) continue;
			L tot = 0;
			for (unsigned k = 0; k <= n; ++k) {
				L w = (p == 0) ? k == 0 : (p == 1) ? k == n : expl(lgammal(n + 1) - lgammal(k + 1) - lgammal(n - k + 1) + k * logl(p) + (n - k) * logl(1 - (L) p));
				PDF("binomial", D::binomial(k, n, p), w); WRAP("binomial", D::binomial((real) k, th2(n, p)), D::binomial(k, n, p)); tot += D::binomial(k, n, p);
			}
			NEAR("binomial_total", tot, 1, 1e-9, 0);
		}
	}
	for (double l : {0.0, 0.125, 1.0, 3.5, 20.0, 50.0, 100.0, 120.0, 150.0, 300.0, 600.0}) {
		if (!vf::begin("poisson %g", l)) continue;
		L tot = 0;
		for (unsigned k = 0; k <= 120 + 2 * l; ++k) { L w = l == 0 ? k == 0 : expl(-l + k * logl(l) - lgammal(k + 1)); PDF("poisson", D::poisson(k, l), w); WRAP("poisson", D::poisson((real) k, th1(l)), D::poisson(k, l)); tot += D::poisson(k, l); }
		NEAR("poisson_total", tot, 1, 1e-9, 0);
	}
	for (unsigned n = 0; n <= 30; ++n) for (auto& p : std::vector<V>{{0.25, 0.75}, {0.5, 0.25, 0.25}, {0.1, 0.2, 0.7}, {1, 0}}) {
		if (!vf::begin("multinomial %u %s", n, show(p).c_str())) continue;
		L tot = 0;
		for (unsigned i = 0; i <= n; ++i) for (unsigned j = 0; j <= (p.size() == 2 ? 0 : n - i); ++j) {
			std::vector<unsigned> x = p.size() == 2 ? std::vector<unsigned>{i, n - i} : std::vector<unsigned>{i, j, n - i - j};
			L w = expl(lgammal(n + 1)); for (size_t q = 0; q < x.size(); ++q) w *= powl(p[q], x[q]) / expl(lgammal(x[q] + 1));
			double g = D::multinomial(x, n, x.size(), p); PDF("multinomial", g, w); tot += g;
		}
		NEAR("multinomial_total", tot, 1, 1e-9, 0);
	}
}
SECTION(s04_wrappers) {
	// wrong number of parameters
	for (unsigned n = 0; n <= 4; ++n) {
		if (!vf::begin("theta of size %u", n)) continue;
		vec<real> t; t.resize(n); for (unsigned i = 0; i < n; ++i) t[i] = 1;
		#define ONE(f) if (n != 1) { errno = 0; ISNAN("theta_" #f, D::f(0.5, t)); EQ("theta_errno_" #f, errno, EINVAL); }
		#define TWO(f) if (n != 2) { errno = 0; ISNAN("theta_" #f, D::f(0.5, t)); EQ("theta_errno_" #f, errno, EINVAL); }
		ONE(bernoulli) ONE(poisson) ONE(chi_squared) ONE(student) ONE(exponential) ONE(rayleigh) ONE(maxwell)
		TWO(gaussian) TWO(binomial) TWO(gamma) TWO(beta) TWO(log_normal) TWO(cauchy) TWO(breit_wigner) TWO(laplace) TWO(pareto) TWO(erlang)
	}
	for (unsigned a = 0; a < 4; ++a) for (unsigned b = 0; b < 4; ++b) for (unsigned k = 0; k < 4; ++k) if ((a != b || a != k) && vf::begin("multinomial sizes %u %u %u", a, b, k)) REFUSED("multinomial_sizes", D::multinomial(std::vector<unsigned>(a, 1), a, k, V(b, 0.5)));
	if (vf::begin("invalid parameters")) { REFUSED("erlang_zero", D::erlang(1, 0u, 1)); REFUSED("pareto_alpha", D::pareto(2, 1, 0)); REFUSED("pareto_alpha_neg", D::pareto(2, 1, -1)); REFUSED("rayleigh_zero", D::rayleigh(1, 0)); }
	// likelihood of every sample
	V a = {-1, 0, 0.5, 2};
	words_upto(a, 0, vf::thorough() ? 5 : 4, [&](const V& v) {
		for (double m : {0.0, 1.0}) for (double s : {0.5, 2.0}) {
			if (!vf::begin("likelihood %s mu %g sigma %g", show(v).c_str(), m, s)) continue;
			L p = 1, lp = 0; for (double x : v) { L z = (x - m) / s, d = expl(-z * z / 2) / (s * sqrtl(2 * M_PIl)); p *= d; lp += logl(d); }
			stat_function f = [](real x, const vec<real>& t) { return D::gaussian(x, t); };
			NEAR("likelihood", stats::likelihood(conv<vec<real>>(v), th2(m, s), f), p, 1e-8, 1e-30); NEAR("log_likelihood", stats::log_likelihood(conv<vec<real>>(v), th2(m, s), f), lp, 1e-8, 1e-9);
		}
	});
}

// ------------------------------------------------------------------------------------ S05
SECTION(s05_chi) {
	V a = {-1, 0, 2}, s = {0.5, 3};
	for (size_t n = 0; n <= (vf::thorough() ? 4u : 3u); ++n) words(a, n, [&](const V& o) { words(a, n, [&](const V& e) { words(s, n, [&](const V& g) {
		if (!vf::begin("chi %s %s %s", show(o).c_str(), show(e).c_str(), show(g).c_str())) return;
		L c = 0; for (size_t i = 0; i < n; ++i) { L d = ((L) o[i] - e[i]) / g[i]; c += d * d; }
		errno = 0; NEAR("chi_square", stats::chi_square(o, e, g), c, 1e-11, 1e-12); CHECK("chi_square_errno", errno == 0);
		for (double A : {-1.0, 0.5}) for (double B : {0.0, 2.0}) {
			L q = 0; for (size_t i = 0; i < n; ++i) { L d = ((L) e[i] - A - B * o[i]) / g[i]; q += d * d; }
			NEAR("chi_square_linear", stats::chi_square_linear(o, e, g, A, B), q, 1e-11, 1e-12);
			if (n > 2) NEAR("reduced", stats::reduced_chi_square_linear(o, e, g, A, B), q / (n - 2), 1e-11, 1e-12); else REFUSED("reduced_few", stats::reduced_chi_square_linear(o, e, g, A, B));
		}
	}); }); });
}
SECTION(s05_pvalue_exact) {
	V q; for (int i = 0; i <= (vf::thorough() ? 200 : 40); ++i) q.push_back(i * (vf::thorough() ? 0.02 : 0.1)); for (double r : {5.0, 8.0, 20.0}) q.push_back(r);
	for (unsigned n = 1; n < 260; ++n) {
		double last = 1.0 + 1e-9;
		for (double r : q) {
			if (!vf::begin("ndf %u chi %.9g", n, r * n)) { last = 2; continue; }
			errno = 0; double p = stats::pvalue_chi_squared(r * n, n);
			NEAR("pvalue", p, Qg(n / 2.0L, r * n / 2), 0, 1e-8);
			CHECKF("pvalue_range", p >= -1e-12 && p <= 1 + 1e-9, "p-value %.12g", p);
			CHECKF("pvalue_monotone", p <= last + 1e-9, "p-value increases from %.12g to %.12g", last, p); last = p;
			CHECK("pvalue_errno", errno == 0);
		}
	}
	if (vf::begin("no degrees of freedom")) REFUSED("pvalue_ndf0", stats::pvalue_chi_squared(1.0, 0));
}
SECTION(s05_pvalue_gauss) {
	for (unsigned n : {260u, 261u, 300u, 500u, 1000u, 5000u}) {
		double last = 1.0 + 1e-9;
		for (double z = -8; z <= 12; z += (vf::thorough() ? 0.05 : 0.25)) {
			double c = n + z * std::sqrt(2.0 * n); if (c < 0) continue;
			if (!vf::begin("ndf %u z %g", n, z)) { last = 2; continue; }
			double p = stats::pvalue_chi_squared(c, n);
			NEAR("pvalue_gaussian", p, erfcl(z / sqrtl(2)) / 2, 0, 2e-3);
			NEAR("pvalue_large", p, Qg(n / 2.0L, c / 2.0L), 0, 0.015);
			CHECKF("pvalue_large_range", p >= -1e-6 && p <= 1 + 1e-6, "p-value %.12g", p);
			CHECKF("pvalue_large_monotone", p <= last + 1e-3, "p-value increases from %.12g to %.12g", last, p); last = p;
		}
	}
}

// ------------------------------------------------------------------------------------ S06
// every polynomial c0 x y + c1 x^2 + c2 y + c3 z x + c4 in three variables
template<class X> static X poly3(const V& c, const X& x, const X& y, const X& z) { return x * y * c[0] + x * x * c[1] + y * c[2] + z * x * c[3] + z * y * y * c[4]; }
static void grad3(const V& c, const V& p, L g[3]) { L x = p[0], y = p[1], z = p[2]; g[0] = y * c[0] + 2 * x * c[1] + z * c[3]; g[1] = x * c[0] + c[2] + 2 * z * y * c[4]; g[2] = x * c[3] + y * y * c[4]; }
SECTION(s06_functions) {
	V co = {-1, 0, 2};
	std::vector<V> pts = {{0, 0, 0}, {1, -2, 0.5}, {3, 1, -1}, {-0.5, 0, 2}}, del = {{0, 0, 0}, {0.5, 0, 0}, {0.25, 1, 0.5}, {1, 1, 2}};
	// covariance matrices A A^T of every lower-triangular A over an alphabet
	words(co, 5, [&](const V& c) { for (auto& p : pts) for (auto& d : del) {
		if (!vf::begin("f %s at %s deltas %s", show(c).c_str(), show(p).c_str(), show(d).c_str())) continue;
		L g[3]; grad3(c, p, g);
		L e = 0; for (int i = 0; i < 3; ++i) e += g[i] * g[i] * d[i] * d[i];
		vec<real, 3> x, dx; vec<real> xd, dxd; xd.resize(3); dxd.resize(3); for (int i = 0; i < 3; ++i) { x[i] = xd[i] = p[i]; dx[i] = dxd[i] = d[i]; }
		auto f = [&](autodiff::dvec_t<3> v) { return poly3<autodiff::dreal_t<3>>(c, v[0], v[1], v[2]); };
		auto fd = [&](autodiff::dvec_t<0> v) { return poly3<autodiff::dreal_t<0>>(c, v[0], v[1], v[2]); };
		NEAR("propagation", stats::error_propagation<3>(f, x, dx), sqrtl(e), 1e-9, 1e-9);
		NEAR("propagation_dynamic", stats::error_propagation<0>(fd, xd, dxd), sqrtl(e), 1e-9, 1e-9);
		// diagonal covariance gives the same
		mat<real, 3, 3> cm; mat<real> cd; cd.resize(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) cm(i, j) = cd(i, j) = i == j ? d[i] * d[i] : 0;
		NEAR("propagation_diag", stats::error_propagation<3>(f, x, cm), sqrtl(e), 1e-9, 3e-8);
		// full covariance A A^T built from the deltas
		L A[3][3] = {{d[0], 0, 0}, {-d[1], d[1], 0}, {d[2] / 2, d[2], d[2]}}; L q = 0;
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L s = 0; for (int k = 0; k < 3; ++k) s += A[i][k] * A[j][k]; cm(i, j) = cd(i, j) = s; q += g[i] * g[j] * s; }
		NEAR("propagation_cov", stats::error_propagation<3>(f, x, cm), sqrtl(std::max<L>(q, 0)), 1e-8, 1e-6);
		NEAR("propagation_cov_dynamic", stats::error_propagation<0>(fd, xd, cd), sqrtl(std::max<L>(q, 0)), 1e-8, 1e-6);
	} });
}
SECTION(s06_datasets) {
	V a = {-1, 0.5, 2};
	for (size_t n = 2; n <= (vf::thorough() ? 4u : 3u); ++n) words(a, n, [&](const V& x) { words(a, n, [&](const V& y) {
		if (!vf::begin("datasets %s %s", show(x).c_str(), show(y).c_str())) return;
		std::vector<vec<real>> v = {conv<vec<real>>(x), conv<vec<real>>(y)};
		L mx = meanL(x), my = meanL(y), c[2][2] = {{0, 0}, {0, 0}};
		for (size_t i = 0; i < n; ++i) { L q[2] = {x[i] - mx, y[i] - my}; for (int r = 0; r < 2; ++r) for (int s = 0; s < 2; ++s) c[r][s] += q[r] * q[s] / (n - 1); }
		auto M = stats::covar_mat(v);
		EQ("covar_rows", M.rows(), 2u); EQ("covar_cols", M.cols(), 2u);
		for (int r = 0; r < 2; ++r) for (int s = 0; s < 2; ++s) NEAR("covar_mat", M(r, s), c[r][s], 1e-10, 1e-11);
		for (double k : {-1.0, 0.0, 2.0}) for (double l : {0.0, 1.5}) {
			auto f = [&](autodiff::dvec_t<0> w) { return w[0] * w[1] * k + w[0] * l + w[1] * w[1]; };
			L g0 = my * k + l, g1 = mx * k + 2 * my, e = g0 * g0 * c[0][0] + 2 * g0 * g1 * c[0][1] + g1 * g1 * c[1][1];
			NEAR("propagation_datasets", stats::error_propagation<0>(f, v), sqrtl(std::max<L>(e, 0)), 1e-7, 1e-6);
		}
	}); });
	for (unsigned n = 0; n <= 4; ++n) for (unsigned r = 1; r <= 4; ++r) for (unsigned c = 1; c <= 4; ++c) if ((r != n || c != n) && vf::begin("variables %u covariance %ux%u", n, r, c)) {
		mat<real> cm; cm.resize(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) cm(i, j) = i == j;
		vec<real> x; x.resize(n); for (unsigned i = 0; i < n; ++i) x[i] = 1;
		auto f = [&](autodiff::dvec_t<0> w) { autodiff::dreal_t<0> s = w[0]; return s * s; };
		REFUSED("covariance_shape", stats::error_propagation<0>(f, x, cm));
	}
}
VF_MAIN
