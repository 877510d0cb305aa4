// Larger orders, longer datasets, degenerate and unusual arguments of the statistics, interpolation and orthogonal
// polynomial modules: the regions in which the small-scope enumerations of the other harnesses cannot reach.
// Oracles: the definitions, evaluated in long double.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
using namespace theoretica;
typedef long double L; typedef std::vector<double> D; static const L PIl = acosl(-1.0L);
static double irr(unsigned i, int s) { return std::ldexp((double) ((i * 2654435761u + s * 40503u + 12345u) % 16777213u) - 8388607.0, -20 + (int) (i % 3)); }
static D mkd(unsigned n, int s) { D v(n); for (unsigned i = 0; i < n; ++i) v[i] = irr(i, s); return v; }

#if SZ == 1
typedef std::vector<L> C;
static C shiftmul(const C& p, L a, L b) { C r(p.size() + 1, 0); for (size_t i = 0; i < p.size(); ++i) { r[i] += a * p[i]; r[i + 1] += b * p[i]; } return r; } // (a + b x) p
static C comb(C p, const C& q, L k) { for (size_t i = 0; i < q.size(); ++i) p[i] += k * q[i]; return p; }
template<class F> static std::vector<C> table(C a, C b, unsigned n, F f) { std::vector<C> t{a, b}; for (unsigned i = 2; i <= n; ++i) t.push_back(f(t[i - 2], t[i - 1], i)); return t; }
static void same(const char* t, const polynomial<real>& p, const C& w, double rel) { CHECKF("degree", p.size() >= w.size(), "%u coefficients", (unsigned) p.size()); for (size_t i = w.size(); i < p.size(); ++i) EQ("degree", p[i], 0.0); L m = 0; for (L c : w) m = std::max(m, fabsl(c)); for (size_t i = 0; i < w.size() && i < p.size(); ++i) NEAR(t, p[i], w[i], rel, 0); }
SECTION(p02_high) { // coefficients of high orders
	unsigned N = vf::thorough() ? 100 : 64;
	auto le = table({1}, {0, 1}, N, [](const C& a, const C& b, unsigned i) { C r = comb(shiftmul(b, 0, 2.0L * i - 1), a, -(L) (i - 1)); for (L& x : r) x /= i; return r; });
	auto la = table({1}, {1, -1}, N, [](const C& a, const C& b, unsigned i) { C r = comb(shiftmul(b, 2.0L * i - 1, -1), a, -(L) (i - 1)); for (L& x : r) x /= i; return r; });
	auto he = table({1}, {0, 2}, N, [](const C& a, const C& b, unsigned i) { return comb(shiftmul(b, 0, 2), a, -2.0L * (i - 1)); });
	auto c1 = table({1}, {0, 1}, N, [](const C& a, const C& b, unsigned) { return comb(shiftmul(b, 0, 2), a, -1); }), c2 = table({1}, {0, 2}, N, [](const C& a, const C& b, unsigned) { return comb(shiftmul(b, 0, 2), a, -1); });
	for (unsigned n = 0; n <= N; ++n) { if (vf::begin("order %u", n)) { errno = 0; same("Legendre", legendre_polynomial(n), le[n], 1e-12); same("Laguerre", laguerre_polynomial(n), la[n], 1e-9); same("Hermite", hermite_polynomial(n), he[n], 1e-12); same("Chebyshev 1", chebyshev1_polynomial(n), c1[n], 1e-12); same("Chebyshev 2", chebyshev2_polynomial(n), c2[n], 1e-12); CHECK("no error", errno == 0); }
		for (real al : {0.5, -0.5, -0.75, 3., 7.25}) if (n <= 40 && vf::begin("generalised Laguerre %g of order %u", al, n)) { C w(n + 1); for (unsigned k = 0; k <= n; ++k) { L b = 1; for (unsigned j = 1; j <= n - k; ++j) b *= (k + al + j) / j; for (unsigned j = 1; j <= k; ++j) b /= j; w[k] = k % 2 ? -b : b; } errno = 0; same("generalised Laguerre", general_laguerre_polynomial(al, n), w, 1e-9); CHECK("no error", errno == 0); } }
	for (unsigned n = 0; n <= 1000; ++n) if (vf::begin("normalisation of order %u", n)) { errno = 0; NEAR("Legendre", legendre_polyn_normalization(n), sqrtl(n + 0.5L), 1e-14, 0); if (n <= 140) NEAR("Hermite", hermite_polyn_normalization(n), expl(-0.5L * (n * logl(2) + lgammal(n + 1.0L) + logl(PIl) / 2)), 1e-12, 0); CHECK("no error", errno == 0); }
}
SECTION(p02_assoc) { // associated Legendre functions of every degree and order to 14
	unsigned N = vf::thorough() ? 20 : 14;
	for (int l = 0; l <= (int) N; ++l) for (int m = -l; m <= l; ++m) { if (!vf::begin("associated Legendre l=%d m=%d", l, m)) continue; errno = 0; auto f = assoc_legendre_polynomial(l, m); int a = std::abs(m);
		for (int k = -16; k <= 16; ++k) { L x = k / 16.0L, s = sqrtl(1 - x * x), p = 1; for (int i = 1; i <= a; ++i) p *= -(2 * i - 1) * s; L q = x * (2 * a + 1) * p, r = l == a ? p : q; for (int i = a + 2; i <= l; ++i) { r = ((2 * i - 1) * x * q - (i + a - 1) * p) / (i - a); p = q; q = r; } if (m < 0) { L c = a % 2 ? -1 : 1; for (int i = l - a + 1; i <= l + a; ++i) c /= i; r *= c; } L sc = 1; for (int i = l - a + 1; i <= l + a; ++i) sc *= i; sc = m >= 0 ? sqrtl(sc) : 1 / sqrtl(sc); NEAR("value", f((real) x), r, 1e-9, (double) (1e-10L * sc * (l > 10 ? 100 : 1)));
			if (m % 2 == 0) NEAR("even order as a polynomial", assoc_legendre_polynomial_even(l, m)((real) x), r, 1e-9, (double) (1e-10L * sc * (l > 10 ? 1000 : 1))); }
		CHECK("no error", errno == 0); if (m % 2) for (real x : {1.5, -2., 40.}) { errno = 0; ISNAN("no real value outside", f(x)); CHECK("reported", errno != 0); } }
}
template<class F> static std::vector<L> zeros(F f, L lo, L hi, unsigned cells) { std::vector<L> r; for (unsigned i = 0; i < cells; ++i) { L a = lo + (hi - lo) * i / cells, b = lo + (hi - lo) * (i + 1) / cells, fa = f(a), fb = f(b); if (fa == 0) { r.push_back(a); continue; } if (fa * fb >= 0) continue; for (int k = 0; k < 70; ++k) { L m = (a + b) / 2, fm = f(m); if (fm == 0) { a = b = m; break; } if (fa * fm < 0) b = m; else a = m, fa = fm; } r.push_back((a + b) / 2); } return r; }
SECTION(p02_rules) { // weights of high orders at the well-conditioned roots, the others given in their place
	for (unsigned n = 1; n <= 45; ++n) {
		auto le = [&](L x) { L a = 1, b = x; for (unsigned i = 2; i <= n; ++i) { L c = ((2 * i - 1) * x * b - (i - 1) * a) / i; a = b; b = c; } return b; };
		auto lad = [&](L x, unsigned n) { L a = 1, b = 1 - x; if (n == 0) return a; for (unsigned i = 2; i <= n; ++i) { L c = ((2 * i - 1 - x) * b - (i - 1) * a) / i; a = b; b = c; } return b; }; auto la = [&](L x) { return lad(x, n); };
		auto hed = [&](L x, unsigned n) { L a = 1, b = sqrtl(2) * x; if (n == 0) return a; for (unsigned i = 2; i <= n; ++i) { L c = x * sqrtl(2.0L / i) * b - sqrtl((i - 1.0L) / i) * a; a = b; b = c; } return b; }; auto he = [&](L x) { return hed(x, n); }; // orthonormal up to pi^(-1/4)
		if (vf::begin("Legendre weights of order %u", n)) { auto z = zeros(le, -1 + 1e-12L, 1 - 1e-12L, 7 * n * n + 2); EQ("roots", (unsigned) z.size(), n); std::vector<real> r(z.begin(), z.end()); errno = 0; auto w = legendre_weights(r); EQ("weights", (unsigned) w.size(), n); for (unsigned i = 0; i < n && i < w.size(); ++i) if (n <= 12 || fabsl(z[i]) < 0.12L) { L x = z[i], a = 1, b = x; for (unsigned k = 2; k <= n; ++k) { L c = ((2 * k - 1) * x * b - (k - 1) * a) / k; a = b; b = c; } L d = n * (a - x * b) / (1 - x * x); if (n == 1) d = 1; NEAR("weight", w[i], 2 / ((1 - x * x) * d * d), n <= 12 ? 1e-9 : 1e-6, 0); } CHECK("no error", errno == 0);
			if (n <= 14) { auto q = legendre_roots(n); EQ("roots", (unsigned) q.size(), n); for (unsigned i = 0; i < n && i < q.size(); ++i) NEAR("root", q[i], z[i], 0, 1e-9); } }
		if (vf::begin("Laguerre weights of order %u", n)) { std::vector<L> z = zeros([&](L t) { return la(t * t); }, 1e-6L, sqrtl(4.0L * n + 3), 400 * n); EQ("roots", (unsigned) z.size(), n); for (L& t : z) t *= t; std::vector<real> r(z.begin(), z.end()); errno = 0; auto w = laguerre_weights(r); EQ("weights", (unsigned) w.size(), n); for (unsigned i = 0; i < n && i < w.size(); ++i) if (z[i] < 1) { L d = lad(z[i], n + 1) * (n + 1); NEAR("weight", w[i], z[i] / (d * d), 1e-8, 0); } CHECK("no error", errno == 0); }
		if (vf::begin("Hermite weights of order %u", n)) { L R = sqrtl(2.0L * n + 1); auto z = zeros(he, -R - 0.01L, R + 0.013L, 300 * n + 1); EQ("roots", (unsigned) z.size(), n); for (L& t : z) if (fabsl(t) < 1e-15L) t = 0; std::vector<real> r(z.begin(), z.end()); errno = 0; auto w = hermite_weights(r); EQ("weights", (unsigned) w.size(), n); for (unsigned i = 0; i < n && i < w.size(); ++i) if (fabsl(z[i]) < 1) { L h = hed(z[i], n - 1); NEAR("weight", w[i], sqrtl(PIl) / (n * h * h), 1e-8, 0); } CHECK("no error", errno == 0); }
	}
}
#endif
#if SZ == 2
SECTION(i02_curves) { // every size of angle, ends approached closely, parameters outside of the unit interval
	for (int k = 1; k <= 19; ++k) for (int side = 0; side < 2; ++side) for (real l1 : {1., 0.25, 7.}) for (real l2 : {1., 3.}) for (real t : {0., 0.3, 0.5, 0.9, 1., -0.5, 1.5}) { L om = std::ldexp(1.0, 1 - k); if (side && k > 11) continue; if (side) om = PIl - om; if (om > PIl) continue; if (!vf::begin("slerp at angle %g from pi*%d lengths %g %g t=%g", std::ldexp(1.0, 1 - k), side, l1, l2, t)) continue; vec<real, 3> a = {l1, 0, 0}, b = {(real) (l2 * cosl(om)), (real) (l2 * sinl(om) * 0.6L), (real) (l2 * sinl(om) * 0.8L)}; errno = 0; auto p = slerp(a, b, t); L s = sinl(om), u = sinl((1 - t) * om) / s, v = sinl(t * om) / s; double tol = side ? 1e-12 / (double) (s * s) : k <= 8 ? 1e-11 : 2e-4; tol = std::max(tol, 1e-12) * 10; if (!side && k > 8) tol = 1e-5; tol = std::max(tol, 3e-8 / (double) s); for (int i = 0; i < 3; ++i) NEAR("slerp", p[i], u * a[i] + v * b[i], 0, tol * (l1 + l2) * (1 + fabsl(u) + fabsl(v))); CHECK("no error", errno == 0); }
	for (real x1 : {0., -2., 3.}) for (real x2 : {1., 5., -4.}) for (int k = 1; k <= 40; ++k) for (int e = 0; e < 2; ++e) { if (x1 == x2) continue; if (!vf::begin("steps between %g and %g, 2^-%d from end %d", x1, x2, k, e)) continue; L q = std::ldexp(1.0L, -k); real at = (real) (e ? x2 - q * (x2 - x1) : x1 + q * (x2 - x1)); L x = ((L) at - x1) / ((L) x2 - x1); NEAR("smoothstep", smoothstep(x1, x2, at), x * x * (3 - 2 * x), 3e-15 / (double) (e ? 1 : q) * 2e0 * (e ? 1 : 1), 1e-15); NEAR("smootherstep", smootherstep(x1, x2, at), x * x * x * (x * (x * 6 - 15) + 10), 6e-15 / (double) (e ? 1 : q), 1e-15); }
	for (real t : {-2., -0.5, -1e-3, 0., 0.25, 1., 1.125, 3.}) words<real>({-1, 0, 2}, 4, [&](const D& w) { if (!vf::begin("Bezier %g %g %g %g at %g", w[0], w[1], w[2], w[3], t)) return; typedef vec<real, 2> P; P p[4]; for (int i = 0; i < 4; ++i) p[i] = {w[i], w[3 - i] * 2 + 1}; errno = 0; auto q = quadratic_bezier(p[0], p[1], p[2], t), c = cubic_bezier(p[0], p[1], p[2], p[3], t); L s = 1 - (L) t; for (int i = 0; i < 2; ++i) { NEAR("quadratic", q[i], s * s * p[0][i] + 2 * s * t * p[1][i] + (L) t * t * p[2][i], 1e-13, 1e-13); NEAR("cubic", c[i], s * s * s * p[0][i] + 3 * s * s * t * p[1][i] + 3 * s * t * t * p[2][i] + (L) t * t * t * p[3][i], 1e-12, 1e-12); } for (real l : {lerp(w[0], w[1], t)}) NEAR("lerp", l, w[0] + (L) t * (w[1] - w[0]), 1e-15, 1e-15); auto v = lerp(p[0], p[3], t); for (int i = 0; i < 2; ++i) NEAR("lerp", v[i], p[0][i] + (L) t * (p[3][i] - p[0][i]), 1e-15, 1e-15); CHECK("no error", errno == 0); });
	for (unsigned n : {2u, 3u, 9u, 16u, 17u, 33u, 64u}) for (real t : {0., 0.125, 0.5, 0.9, 1.}) if (vf::begin("Bezier curve of %u points at %g", n, t)) { std::vector<vec<real, 2>> p(n); for (unsigned i = 0; i < n; ++i) p[i] = {(real) ((i * 7) % 5) - 2, (real) i}; errno = 0; auto b = bezier(p, t); L x = 0; for (unsigned i = 0; i < n; ++i) { L c = 1; for (unsigned j = 1; j <= i; ++j) c *= (L) (n - i - 1 + j) / j; x += c * powl(t, i) * powl(1 - (L) t, n - 1 - i) * p[i][0]; } NEAR("x", b[0], x, 1e-12, 1e-12); NEAR("y", b[1], (n - 1) * (L) t, 1e-13, 1e-13); CHECK("no error", errno == 0); }
}
SECTION(i02_outside) { // derivatives and values on both sides of the data, many nodes
	for (unsigned n : {2u, 3u, 4u, 5u, 9u, 17u, 100u, 255u, 256u, 257u, 258u, 300u, 513u, 700u}) { if (!vf::begin("spline through %u points", n)) continue; D x(n), y(n); std::vector<vec2> p(n); for (unsigned i = 0; i < n; ++i) { x[i] = i * 0.5 + (i % 3) * 0.1 - 3; y[i] = (double) ((i * 7) % 11) - 4; p[i] = {x[i], y[i]}; } errno = 0; spline s(p), t(x, y); EQ("pieces", (unsigned) s.nodes.size(), n - 1); EQ("pieces", (unsigned) t.nodes.size(), n - 1);
		auto ref = [&](const spline& s, real u, int d) -> L { size_t i = 0; while (i + 1 < s.nodes.size() && u >= x[i + 1]) ++i; auto& k = s.nodes[i]; L h = (L) u - x[i]; return d ? k.b + h * (2 * (L) k.c + 3 * h * k.d) : k.a + h * (k.b + h * (k.c + h * k.d)); };
		for (const spline* q : {&s, &t}) { for (unsigned i = 0; i < n; ++i) { NEAR("through the points", (*q)(x[i]), y[i], 1e-11, 1e-11); if (i + 1 < n) { EQ("piece starts at its point", q->nodes[i].x, x[i]); for (real f : {0.25, 0.999}) { real u = x[i] + f * (x[i + 1] - x[i]); NEAR("value", (*q)(u), ref(*q, u, 0), 1e-12, 1e-12); NEAR("derivative", q->deriv(u), ref(*q, u, 1), 1e-12, 1e-12); } } if (i && i + 1 < n) { auto &a = q->nodes[i - 1], &b = q->nodes[i]; L h = (L) x[i] - x[i - 1]; NEAR("slope continuous", a.b + h * (2 * (L) a.c + 3 * h * a.d), b.b, 1e-9, 1e-9); NEAR("curvature continuous", a.c + 3 * h * a.d, b.c, 1e-9, 1e-9); } }
			for (real d : {0.1, 1., 2.5}) { for (real u : {x[0] - d, x[n - 1] + d}) { NEAR("value outside", (*q)(u), ref(*q, u, 0), 1e-11, 1e-11); NEAR("derivative outside", q->deriv(u), ref(*q, u, 1), 1e-11, 1e-11); } } auto& e = q->nodes[n - 2]; NEAR("natural end", e.c + 3 * ((L) x[n - 1] - x[n - 2]) * e.d, 0, 0, 1e-10); NEAR("natural start", q->nodes[0].c, 0, 0, 1e-12); } CHECK("no error", errno == 0); }
	words<real>({-2, 0, 1.5}, 4, [&](const D& w) { for (real h : {-3., -0.5, 0., 0.25, 2.}) if (vf::begin("cubic %g %g %g %g at distance %g", w[0], w[1], w[2], w[3], h)) { spline_node k(0.75, w[0], w[1], w[2], w[3]); NEAR("value", k(0.75 + h), w[0] + h * (w[1] + (L) h * (w[2] + (L) h * w[3])), 1e-14, 1e-14); NEAR("derivative", k.deriv(0.75 + h), w[1] + h * (2 * (L) w[2] + 3 * (L) h * w[3]), 1e-14, 1e-14); } });
}
#endif
#if SZ == 3
struct Mom { L mean, tss; }; static Mom mom(const D& v) { L m = 0, s = 0; for (double x : v) m += x; m /= v.size(); for (double x : v) s += (x - m) * (x - m); return {m, s}; }
SECTION(s01_long) { // more elements than 2^15 and 2^16
	for (unsigned n : {2u, 3u, 255u, 256u, 257u, 1000u, 32767u, 32768u, 32769u, 65535u, 65536u, 65537u, 70000u, 131073u}) for (double off : {0., 5., -1000.}) { if (!vf::begin("statistics of %u values around %g", n, off)) continue; D v(n), u(n); for (unsigned i = 0; i < n; ++i) { v[i] = irr(i, 1) + off; u[i] = irr(i, 2) - v[i] / 2; } Mom a = mom(v), b = mom(u); L c = 0, m3 = 0, m4 = 0, ad = 0, ac = 0; L sg = sqrtl(a.tss / (n - 1)); for (unsigned i = 0; i < n; ++i) { L d = v[i] - a.mean; c += d * (u[i] - b.mean); m3 += d * d * d; m4 += d * d * d * d; ad += fabsl(d); if (i >= 1) ac += d * (v[i - 1] - a.mean); }
		errno = 0; double r = 1e-10; NEAR("mean", stats::mean(v), a.mean, 1e-11, 1e-9); NEAR("sum of squares", stats::total_sum_squares(v), a.tss, r, 0); for (unsigned k : {0u, 1u, 2u}) if (n > k) { NEAR("variance", stats::variance(v, k), a.tss / (n - k), r, 0); NEAR("deviation", stats::stdev(v, k), sqrtl(a.tss / (n - k)), r, 0); NEAR("covariance", stats::covariance(v, u, k), c / (n - k), 1e-9, 1e-9); real m, q; stats::moments2(v, m, q, k); NEAR("moments", m, a.mean, 1e-11, 1e-9); NEAR("moments", q, a.tss / (n - k), r, 0); }
		NEAR("deviation of the mean", stats::stdom(v), sqrtl(a.tss / (n - 1) / n), r, 0); if (off) NEAR("relative error", stats::standard_relative_error(v), sqrtl(a.tss / (n - 1) / n) / fabsl(a.mean), 1e-9, 0); NEAR("correlation", stats::correlation_coefficient(v, u), c / sqrtl(a.tss * b.tss), 1e-9, 0); NEAR("autocorrelation", stats::autocorrelation(v), ac / a.tss, 1e-9, 1e-9); NEAR("absolute deviation", stats::absolute_deviation(v), ad / n, 1e-9, 0); NEAR("skewness", stats::skewness(v), m3 / (sg * sg * sg) / n, 1e-8, 1e-9); NEAR("kurtosis", stats::kurtosis(v), m4 / (sg * sg * sg * sg) / n - 3, 1e-8, 1e-9); NEAR("semidispersion", stats::semidispersion(v), (*std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end())) / 2, 1e-14, 0); CHECK("no error", errno == 0); }
}
SECTION(s01_outliers) { // one value far from all others: the largest scores possible for the size
	for (unsigned n : {10u, 50u, 120u, 1000u, 20000u}) for (double o : {1., -1., 1e6, -1e-6}) { if (!vf::begin("%u zeros and %g", n, o)) continue; D v(n + 1, 0.0); v[n / 3] = o; vec<real> w; w.resize(n + 1); for (unsigned i = 0; i <= n; ++i) w[i] = v[i]; L N = n + 1, mu = o / N, s = fabsl((L) o) / sqrtl(N), z1 = (o - mu) / s, z0 = -mu / s; errno = 0; NEAR("skewness", stats::skewness(v), (z1 * z1 * z1 + n * z0 * z0 * z0) / N, 1e-9, 0); NEAR("kurtosis", stats::kurtosis(v), (powl(z1, 4) + n * powl(z0, 4)) / N - 3, 1e-9, 0); auto z = stats::normalize_z_score(v); auto y = stats::normalize_z_score(w); EQ("size", z.size(), v.size()); for (unsigned i : {0u, n / 3, n}) { NEAR("score", z[i], i == n / 3 ? z1 : z0, 1e-10, 0); NEAR("score", y[i], i == n / 3 ? z1 : z0, 1e-10, 0); } CHECK("no error", errno == 0); }
}
SECTION(s01_small) { // small and negative uncertainties, small means
	for (int e = -40; e <= 20; e += 4) for (double sg : {1., -1.}) { if (!vf::begin("uncertainties of size %g 2^%d", sg, e)) continue; double k = std::ldexp(sg, e); D s{k, 2 * k, 0.5 * k}, m{3, -1, 2}, ms{3 * k, -k, 2 * k}, x{1, 2, 4}, y{1.5, 2, -3}, ex{1, 2.25, -3.5}; errno = 0; L w = 0, c = 0, l = 0, pm = 0; for (int i = 0; i < 3; ++i) { w += (L) s[i] * s[i] / m[i] / m[i]; pm += (L) s[i] * s[i] / ms[i] / ms[i]; c += ((L) y[i] - ex[i]) * (y[i] - ex[i]) / s[i] / s[i]; L d = y[i] - 0.5L + 0.75L * x[i]; l += d * d / s[i] / s[i]; }
		NEAR("product", stats::propagate_product(s, m), sqrtl(w), 1e-12, 0); NEAR("product", stats::propagate_product(s, ms), sqrtl(pm), 1e-12, 0); NEAR("sum", stats::propagate_sum(s), sqrtl(5.25L) * fabs(k), 1e-12, 0); NEAR("chi square", stats::chi_square(y, ex, s), c, 1e-12, 0); NEAR("chi square of a line", stats::chi_square_linear(x, y, s, 0.5, -0.75), l, 1e-12, 0); NEAR("reduced", stats::reduced_chi_square_linear(x, y, s, 0.5, -0.75), l, 1e-12, 0); Mom a = mom(ms); NEAR("relative error", stats::standard_relative_error(ms), sqrtl(a.tss / 6) / fabsl(a.mean), 1e-11, 0); CHECK("no error", errno == 0); }
}
#endif
#if SZ == 4
SECTION(s02_long) { // many insertions
	for (unsigned n : {1u, 2u, 255u, 256u, 257u, 32768u, 65535u, 65536u, 65537u, 70000u, 140000u}) for (unsigned b : {1u, 7u, 300u}) { if (!vf::begin("%u values in %u bins", n, b)) continue; D v(n); std::vector<unsigned> w(b, 0); histogram h(b, -9, 40); for (unsigned i = 0; i < n; ++i) { v[i] = (double) ((i * 7919u) % 4801) / 100 - 8.5; unsigned k = (unsigned) std::floor((v[i] + 9) / 49 * b); ++w[k < b ? k : b - 1]; errno = 0; h.insert(v[i]); } L m = 0, t = 0; for (double x : v) m += x; m /= n; for (double x : v) t += (x - m) * (x - m); EQ("number", h.number(), n); NEAR("mean", h.mean(), m, 1e-10, 1e-11); NEAR("sum of squares", h.tss(), t, 1e-9, 1e-12); if (n > 1) NEAR("variance", stats::variance(h), t / (n - 1), 1e-9, 1e-12); auto q = h.bins(); EQ("bins", (unsigned) q.size(), b); unsigned tot = 0; for (unsigned i = 0; i < b; ++i) { tot += q[i]; EQ("count", q[i], h[i]); if (b < 300) EQ("count", q[i], w[i]); } EQ("total", tot, n); EQ("max", h.max(), *std::max_element(v.begin(), v.end())); EQ("min", h.min(), *std::min_element(v.begin(), v.end()));
		histogram g(v, b), d(v); EQ("number", g.number(), n); NEAR("mean", g.mean(), m, 1e-10, 1e-11); NEAR("sum of squares", g.tss(), t, 1e-9, 1e-12); EQ("default number of bins", (unsigned) d.bins().size(), (unsigned) std::floor(std::sqrt((double) n))); unsigned a = 0, c = 0; for (unsigned x : g.bins()) a += x; for (unsigned x : d.bins()) c += x; EQ("total", a, n); EQ("total", c, n); }
	for (unsigned n = 1; n <= 1200; ++n) if (vf::begin("default bins for %u values", n)) { D v(n); for (unsigned i = 0; i < n; ++i) v[i] = i; histogram d(v); unsigned s = 0; while ((s + 1) * (s + 1) <= n) ++s; EQ("default number of bins", (unsigned) d.bins().size(), s); }
}
#endif
#if SZ == 5
SECTION(s03_irregular) { // data that are not short binary fractions, negative uncertainties, large and small ones
	for (unsigned n : {3u, 4u, 7u, 20u, 100u, 500u}) for (int s = 0; s < 4; ++s) for (double sy : {0.5, -0.5, 3., -40., 1e-3}) { if (!vf::begin("fit of %u irregular points, set %d, uncertainty %g", n, s, sy)) continue; D x(n), y(n), w(n), sg(n); for (unsigned i = 0; i < n; ++i) { x[i] = irr(i, 10 * s) + (s % 2 ? 3 : -2); y[i] = (s - 1.7) * x[i] + 0.3 + irr(i, 10 * s + 1) / 3; sg[i] = sy * (1 + (i % 4) / 3.0); w[i] = 1 / (sg[i] * sg[i]); }
		L sx = 0, sxx = 0, sY = 0, sxy = 0, W = 0, wx = 0, wxx = 0, wy = 0, wxy = 0; for (unsigned i = 0; i < n; ++i) { sx += x[i]; sxx += (L) x[i] * x[i]; sY += y[i]; sxy += (L) x[i] * y[i]; W += w[i]; wx += (L) w[i] * x[i]; wxx += (L) w[i] * x[i] * x[i]; wy += (L) w[i] * y[i]; wxy += (L) w[i] * x[i] * y[i]; } L De = n * sxx - sx * sx, A = (sxx * sY - sx * sxy) / De, B = (n * sxy - sx * sY) / De, Dw = W * wxx - wx * wx, Aw = (wxx * wy - wx * wxy) / Dw, Bw = (W * wxy - wx * wy) / Dw, sA = fabsl(sy) * sqrtl(sxx / De), sB = fabsl(sy) * sqrtl(n / De), er = 0, ch = 0; for (unsigned i = 0; i < n; ++i) { L d = y[i] - A - B * x[i], e = (y[i] - Aw - Bw * x[i]) / sg[i]; er += d * d; ch += e * e; }
		double r = 1e-10, ab = 1e-9; real a, b, p, q; mat2 c; errno = 0; regression::ols_linear(x, y, a, b); NEAR("intercept", a, A, r, ab); NEAR("slope", b, B, r, ab); regression::ols_linear(x, y, sy, a, b, p, q); NEAR("intercept", a, A, r, ab); NEAR("slope", b, B, r, ab); NEAR("uncertainty of the intercept", p, sA, r, 0); NEAR("uncertainty of the slope", q, sB, r, 0); regression::ols_linear(x, y, sy, a, b, c); NEAR("intercept", a, A, r, ab); NEAR("slope", b, B, r, ab); NEAR("covariance", c(0, 0), sA * sA, r, 0); NEAR("covariance", c(1, 1), sB * sB, r, 0); NEAR("covariance", c(0, 1), -(L) sy * sy * sx / De, 1e-9, 0); EQ("symmetric", c(1, 0), c(0, 1));
		regression::wls_linear(x, y, w, a, b, c); NEAR("weighted intercept", a, Aw, r, ab); NEAR("weighted slope", b, Bw, r, ab); NEAR("covariance", c(0, 0), wxx / Dw, r, 0); NEAR("covariance", c(1, 1), W / Dw, r, 0); NEAR("covariance", c(0, 1), -wx / Dw, 1e-9, 0); NEAR("intercept", regression::ols_linear_intercept(x, y), A, r, ab); NEAR("slope", regression::ols_linear_slope(x, y), B, r, ab); NEAR("uncertainty", regression::ols_linear_sigma_A(x, y, sy), sA, r, 0); NEAR("uncertainty", regression::ols_linear_sigma_B(x, y, sy), sB, r, 0); NEAR("intercept", regression::wls_linear_intercept(x, y, w), Aw, r, ab); NEAR("slope", regression::wls_linear_slope(x, y, w), Bw, r, ab);
		regression::ols_linear_orig(x, y, sy, b, q); NEAR("through the origin", b, sxy / sxx, r, ab); NEAR("through the origin", q, fabsl(sy) / sqrtl(sxx), r, 0); regression::wls_linear_orig(x, y, w, b, q); NEAR("weighted through the origin", b, wxy / wxx, r, ab); NEAR("weighted through the origin", q, 1 / sqrtl(wxx), r, 0); NEAR("error", regression::ols_linear_error(x, y, (real) A, (real) B), sqrtl(er / (n - 2)), 1e-9, 0);
		regression::linear_model m(x, y), ms(x, y, sy), mw(x, y, sg); for (auto* k : {&m, &ms}) { NEAR("model", k->A, A, r, ab); NEAR("model", k->B, B, r, ab); NEAR("model", k->err, sqrtl(er / (n - 2)), 1e-9, 0); EQ("degrees", k->ndf, n - 2); NEAR("model", (*k)(1.75), A + 1.75L * B, 1e-9, 1e-9); } NEAR("model", ms.sigma_A, sA, r, 0); NEAR("model", ms.sigma_B, sB, r, 0); NEAR("chi squared", ms.chi_squared, er / sy / sy, 1e-9, 0); EQ("p value", ms.p_value, stats::pvalue_chi_squared(ms.chi_squared, n - 2)); NEAR("model", mw.A, Aw, r, ab); NEAR("model", mw.B, Bw, r, ab); NEAR("model", mw.sigma_A, sqrtl(wxx / Dw), r, 0); NEAR("model", mw.sigma_B, sqrtl(W / Dw), r, 0); NEAR("chi squared", mw.chi_squared, ch, 1e-9, 0); CHECK("no error", errno == 0);
		auto has = [](const regression::linear_model& k) { return k.to_string().find("ovariance") != std::string::npos; }; CHECK("the covariance matrix is printed when there is one", has(ms) && has(mw) && !has(m)); }
}
#endif
#if SZ == 6
static real dens(real x, const vec<real>& th) { return th[0] * x; }
SECTION(s04_likelihood) { // long samples, small densities
	for (unsigned n : {1u, 5u, 40u, 200u}) for (double k : {1., 0.1, 1e-3, 1e-15, 1e-40}) for (double x0 : {1., 0.5, 2.}) { if (!vf::begin("likelihood of %u values with density %g around %g", n, k, x0)) continue; vec<real> v, th; v.resize(n); th.resize(1); th[0] = k; L p = 1, l = 0; for (unsigned i = 0; i < n; ++i) { v[i] = x0 * (1 + (i % 3) / 8.0); L d = (L) (real) (k * v[i]); p *= d; l += logl(d); } errno = 0; NEAR("log likelihood", stats::log_likelihood(v, th, dens), l, 1e-12, 1e-9); if (p > 1e-300L && p < 1e300L) NEAR("likelihood", stats::likelihood(v, th, dens), p, 1e-11, 0); CHECK("no error", errno == 0); }
}
SECTION(s04_edges) { // the ends of the domains and large parameters
	for (unsigned k = 1; k <= 60; ++k) if (vf::begin("chi squared with %u degrees at 0 and near it", k)) { errno = 0; if (k >= 2) { NEAR("at 0", distribution::chi_squared(0, k), k == 2 ? 0.5L : 0, 1e-14, 0); NEAR("at 0", distribution::chi_squared(0, k, special::half_gamma(k)), k == 2 ? 0.5L : 0, 1e-14, 0); vec<real> t; t.resize(1); t[0] = k; NEAR("at 0", distribution::chi_squared(0, t), k == 2 ? 0.5L : 0, 1e-14, 0); } for (int e = -40; e <= 6; e += 2) { L x = std::ldexp(1.0L, e), w = expl((k / 2.0L - 1) * logl(x) - x / 2 - k / 2.0L * logl(2) - lgammal(k / 2.0L)); if (w < 1e-290L) continue; NEAR("density", distribution::chi_squared((real) x, k), w, 1e-11, 0); } for (real x : {-1e-300, -1., -50.}) EQ("negative", distribution::chi_squared(x, k), 0.0); CHECK("no error", errno == 0); }
	for (real s : {0.01, 0.5, 1., 3., 100.}) for (int k = -48; k <= 48; ++k) if (vf::begin("Gaussian of width %g at %d/8", s, k)) { L z = k / 8.0L; real x = (real) (1.25L + z * s); L d = ((L) x - 1.25L) / s; NEAR("Gaussian", distribution::gaussian(x, 1.25, s), expl(-d * d / 2) / (s * sqrtl(2 * PIl)), 1e-13, 0); NEAR("Cauchy", distribution::cauchy(x, 1.25, s), 1 / (PIl * s * (1 + d * d)), 1e-14, 0); NEAR("Laplace", distribution::laplace(x, 1.25, s), expl(-fabsl(d)) / (2 * s), 1e-13, 0); NEAR("Breit-Wigner", distribution::breit_wigner(x, 1.25, s), s / (2 * PIl * (d * d * s * s + (L) s * s / 4)), 1e-13, 0); if (k >= 0) { L y = z * s; NEAR("Rayleigh", distribution::rayleigh((real) y, s), z / s * expl(-z * z / 2), 1e-13, 0); NEAR("Maxwell", distribution::maxwell((real) y, s), sqrtl(2 / PIl) * z * z / s * expl(-z * z / 2), 1e-13, 0); NEAR("exponential", distribution::exponential((real) z, s), s * expl(-z * s), 1e-12, 0); } }
	for (real al : {0.5, 1., 2.5, 10., 20.5, 30., 50., 90.}) for (real be : {0.25, 1., 4.}) for (real t : {0.1, 0.5, 1., 1.5, 3.}) { if (!vf::begin("gamma density shape %g rate %g at %g of the mean", al, be, t)) continue; L x = al / be * t, w = expl(al * logl(be) + (al - 1) * logl((L) (real) x) - be * (L) (real) x - lgammal(al)); if (w < 1e-280L) continue; errno = 0; NEAR("gamma", distribution::gamma((real) x, al, be), w, 1e-9, 0); if (al == std::floor(al)) NEAR("Erlang", distribution::erlang((real) x, (unsigned) al, be), w, 1e-11, 0); CHECK("no error", errno == 0); }
}
#endif
#if SZ == 7
static unsigned calls;
SECTION(s06_negative) { // deviations of both signs; as many points as requested
	words<real>({-0.5, 0.25, 0, -2}, 3, [&](const D& d) { if (!vf::begin("deviations %g %g %g", d[0], d[1], d[2])) return; vec<real, 3> x, s; for (int i = 0; i < 3; ++i) { x[i] = 1 + i; s[i] = d[i]; } errno = 0; real e = stats::error_propagation<3>(+[](autodiff::dvec_t<3> v) -> autodiff::dreal_t<3> { return v[0] * v[1] - v[2] * v[2]; }, x, s); L w = sqrtl(4 * (L) d[0] * d[0] + (L) d[1] * d[1] + 36 * (L) d[2] * d[2]); NEAR("propagated", e, w, 1e-14, 0); vec<real> y, t; y.resize(3); t.resize(3); for (int i = 0; i < 3; ++i) { y[i] = x[i]; t[i] = d[i]; } e = stats::error_propagation(+[](autodiff::dvec_t<0> v) -> autodiff::dreal_t<0> { return v[0] * v[1] - v[2] * v[2]; }, y, t); NEAR("propagated", e, w, 1e-14, 0); CHECK("no error", errno == 0); });
	for (unsigned n : {2u, 3u, 10u, 999u, 1000u, 1001u, 5000u, 70000u}) if (vf::begin("%u Monte Carlo points", n)) { PRNG g = PRNG::wyrand(17); std::vector<pdf_sampler> rv{pdf_sampler::gaussian(0, 1, g), pdf_sampler::uniform(0, 1, g)}; calls = 0; D seen; seen.reserve(n); auto f = [&seen](vec<real> v) -> real { ++calls; real y = v[0] + 2 * v[1]; seen.push_back(y); return y; }; errno = 0; real e = stats::error_propagation_mc(f, rv, n); EQ("points", calls, n); L m = 0, s = 0; for (double y : seen) m += y; m /= n; for (double y : seen) s += (y - m) * (y - m); NEAR("deviation of the points", e, sqrtl(s / (n - 1)), 1e-10, 0); CHECK("no error", errno == 0); }
}
#endif
VF_MAIN
