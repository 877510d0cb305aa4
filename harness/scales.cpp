// Magnitude sweeps: the same problem in other units.  Every quantity is multiplied by powers of two, which commutes
// with rounding, so the results have to be those of the original problem multiplied accordingly (oracle: the value for
// unit scale, itself decided by the other harnesses, checked here against the definition where it is short).  Ranges
// stay above the library's convention that numbers below the machine epsilon are null where it is applied.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
using namespace theoretica;
typedef long double L; typedef std::vector<double> D;
static std::vector<int> ex(int lo, int hi, int quick) { std::vector<int> r; for (int e = lo; e <= hi; e += vf::thorough() ? std::max(1, quick / 8) : quick) r.push_back(e); r.push_back(hi); r.push_back(0); r.push_back(-1 < lo ? lo : -1); return r; }
static double p2(int e) { return std::ldexp(1.0, e); }
static double el(unsigned i, int s) { return s == 0 ? (double) ((int) ((i * 37 + 11) % 61) - 30) : s == 1 ? (double) ((int) ((i * 53 + 5) % 47) - 20) : (double) (i + 1); }
template<class W> static W mk(unsigned n, int s, double k) { W v; v.resize(n); for (unsigned i = 0; i < n; ++i) v[i] = el(i, s) * k; return v; }
template<class W> static void sc(const char* t, const W& a, const W& b, double k, double r) { ++vf::S().checks; if (a.size() != b.size()) { vf::fail(t, "size"); return; } double m = 0; for (size_t i = 0; i < b.size(); ++i) m = std::max(m, std::fabs((double) b[i])); for (size_t i = 0; i < b.size(); ++i) if (!(std::fabs((double) a[i] - k * (double) b[i]) <= r * k * m)) { vf::fail(t, "element %zu is %.17g instead of %.17g", i, (double) a[i], k * (double) b[i]); return; } }
#define SC(t, a, b, k, r) NEAR(t, a, (L) (b) * (k), r, 0)
template<class M> static void scm(const char* t, const M& a, const M& b, double k, double r) { ++vf::S().checks; if (a.rows() != b.rows() || a.cols() != b.cols()) { vf::fail(t, "shape"); return; } double m = 0; for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.cols(); ++j) m = std::max(m, std::fabs(b(i, j))); for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.cols(); ++j) if (!(std::fabs(a(i, j) - k * b(i, j)) <= r * k * m)) { vf::fail(t, "element %u %u is %.17g instead of %.17g", i, j, (double) a(i, j), (double) (k * b(i, j))); return; } }

#if !defined(SZ) || SZ == 1
// ---- A01 ----------------------------------------------------------------------------------------
template<class W> static void vecs(unsigned n, int e, int f, const char* ty) {
	if (!vf::begin("%s of %u elements times 2^%d and 2^%d", ty, n, e, f)) return;
	double s = p2(e), t = p2(f); W a = mk<W>(n, 0, 1), b = mk<W>(n, 1, 1), x = mk<W>(n, 0, s), y = mk<W>(n, 1, t), z = mk<W>(n, 1, s); errno = 0;
	sc("sum", x + z, a + b, s, 1e-15); sc("difference", x - z, a - b, s, 1e-15); sc("opposite", -x, -a, s, 0); SC("dot", x * y, a * b, s * t, 1e-14); SC("dot", x.dot(y), a * b, s * t, 1e-14); SC("squared norm", x.sqr_norm(), a.sqr_norm(), s * s, 1e-14); SC("norm", x.norm(), a.norm(), s, 1e-14); SC("norm", algebra::norm(x), a.norm(), s, 1e-14);
	sc("multiple", x * t, a, s * t, 1e-15); W c = x; c *= t; sc("*=", c, a, s * t, 1e-15); if (f > -50) { sc("quotient", x / t, a, s / t, 1e-15); c = x; c /= t; sc("/=", c, a, s / t, 1e-15); } if (e > -45) { sc("normalized", x.normalized(), a.normalized(), 1, 1e-14); c = x; c.normalize(); sc("normalize", c, a.normalized(), 1, 1e-14); }
	CHECK("no error", errno == 0); vf::state(n * 10000 + e);
}
SECTION(sc_vec) { for (int e : ex(-480, 480, 24)) for (int f : {-500, -49, 0, 60, 500}) for (unsigned n : {1u, 2u, 3u, 4u, 7u, 16u}) { vecs<vec<real>>(n, e, f, "vector"); if (n == 3) vecs<vec<real, 3>>(n, e, f, "static vector"); if (n == 4) vecs<vec<real, 4>>(n, e, f, "static vector"); } 
	for (int e : ex(-300, 300, 20)) if (vf::begin("cross product times 2^%d", e)) { vec<real, 3> a = {1, -2, 5}, b = {3, 4, -7}, x = a * 1.0, y = b; double s = p2(e); for (int i = 0; i < 3; ++i) { x[i] *= s; y[i] *= 4; } sc("cross", x.cross(y), a.cross(b), 4 * s, 1e-14); sc("cross", algebra::cross(x, y), a.cross(b), 4 * s, 1e-14); } }
#endif
#if !defined(SZ) || SZ == 2
// ---- A03 ----------------------------------------------------------------------------------------
static mat<real> mtx(unsigned r, unsigned c, int s, double k) { mat<real> m(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = ((int) ((i * 31 + j * 17 + s * 7 + (i * j) % 5) % 41) - 19) * k; return m; }
SECTION(sc_mat) { for (int e : ex(-480, 480, 24)) for (int f : {-500, -49, 0, 60, 500}) for (unsigned n = 1; n <= 4; ++n) for (unsigned c = 1; c <= 3; ++c) { if (!vf::begin("matrix %u x %u times 2^%d and 2^%d", n, c, e, f)) continue; double s = p2(e), t = p2(f); auto a = mtx(n, c, 0, 1), b = mtx(n, c, 3, 1), x = mtx(n, c, 0, s), y = mtx(n, c, 3, s), w = mtx(c, n, 1, t), w1 = mtx(c, n, 1, 1); errno = 0;
	scm("sum", x + y, a + b, s, 1e-15); scm("difference", x - y, a - b, s, 1e-15); scm("multiple", x * t, a, s * t, 1e-15); scm("multiple", t * x, a, s * t, 1e-15); if (f > -50) scm("quotient", x / t, a, s / t, 1e-15); scm("product", x * w, a * w1, s * t, 1e-14); mat<real> o(n, n); algebra::mat_mul(o, x, w); scm("mat_mul", o, a * w1, s * t, 1e-14); scm("lincomb", algebra::mat_lincomb(2.0, x, -3.0, y), algebra::mat_lincomb(2.0, a, -3.0, b), s, 1e-14); mat<real> tr(c, n), t1(c, n); algebra::transpose(tr, x); algebra::transpose(t1, a); scm("transpose", tr, t1, s, 0); vec<real> v(c), u(c), r(n), q(n); for (unsigned i = 0; i < c; ++i) { v[i] = el(i, 1) * t; u[i] = el(i, 1); } algebra::transform(r, x, v); algebra::transform(q, a, u); sc("transform", r, q, s * t, 1e-14); if (n == c) SC("trace", algebra::trace(x), algebra::trace(a), s, 1e-14); CHECK("no error", errno == 0); vf::state(e * 100 + n); } }
#endif
#if !defined(SZ) || SZ == 4
// ---- A04 ----------------------------------------------------------------------------------------
SECTION(sc_linear) { // every regular matrix of the families, in units from 2^-12 to 2^200
	std::vector<std::vector<real>> fam; words<real>({-2, 0, 1, 3}, 4, [&](const std::vector<real>& w) { fam.push_back(w); }); words<real>({0, 1, -2}, 9, [&](const std::vector<real>& w) { static int k; if (k++ % (vf::thorough() ? 7 : 97) == 0) fam.push_back(w); });
	fam.push_back({4, 1, 0, 1, 5, 2, 0, 2, 6}); fam.push_back({2, -1, 0, -1, 2, -1, 0, -1, 2}); fam.push_back({10, 2, 3, 1, 2, 9, 0, 1, 3, 0, 8, 2, 1, 1, 2, 7}); fam.push_back({0, 2, 3, 1, 2, 0, 0, 1, 3, 0, 0, 2, 1, 1, 2, 0});
	for (auto& w : fam) { unsigned n = w.size() == 4 ? 2 : w.size() == 9 ? 3 : 4; mat<real> A(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) A(i, j) = w[i * n + j]; errno = 0; real dt = algebra::det(A); if (!(std::fabs(dt) > 0.5)) continue; vec<real> b(n); for (unsigned i = 0; i < n; ++i) b[i] = 1 + 2.0 * i; vec<real> x = algebra::solve(A, b); mat<real> inv = algebra::inverse(A); bool spd = algebra::is_symmetric(A); mat<real> l; if (spd) { errno = 0; l = algebra::decompose_cholesky(A); spd = errno == 0; }
		for (int e : ex(-12, 200, 53)) for (int f : {-300, -12, 0, 200}) { if (!vf::begin("matrix of order %u %s times 2^%d, right side 2^%d", n, [&] { std::string s; for (real v : w) s += std::to_string((int) v) + ","; return s; }().c_str(), e, f)) continue; double s = p2(e), t = p2(f); mat<real> B(n, n); vec<real> c(n); for (unsigned i = 0; i < n; ++i) { c[i] = b[i] * t; for (unsigned j = 0; j < n; ++j) B(i, j) = A(i, j) * s; } errno = 0;
			SC("determinant", algebra::det(B), dt, p2(e * (int) n), 1e-11); scm("inverse", algebra::inverse(B), inv, 1 / s, 1e-11); sc("solve", algebra::solve(B, c), x, t / s, 1e-11); sc("solve_lu", algebra::solve_lu(B, c), x, t / s, 1e-11); if (spd) { if (e % 2 == 0) scm("Cholesky", algebra::decompose_cholesky(B), l, p2(e / 2), 1e-12); sc("solve_cholesky", algebra::solve_cholesky(algebra::decompose_cholesky(B), c), x, t / s, 1e-11); } CHECK("no error", errno == 0); }
		for (int e : ex(-240, 240, 60)) { if (!vf::begin("matrix of order %u %s times 2^%d", n, [&] { std::string s; for (real v : w) s += std::to_string((int) v) + ","; return s; }().c_str(), e)) continue; double s = p2(e); mat<real> B(n, n); vec<real> c(n); for (unsigned i = 0; i < n; ++i) { c[i] = b[i]; for (unsigned j = 0; j < n; ++j) B(i, j) = A(i, j) * s; } errno = 0; SC("determinant", algebra::det(B), dt, p2(e * (int) n), 1e-11); scm("inverse", algebra::inverse(B), inv, 1 / s, 1e-11); sc("solve", algebra::solve(B, c), x, 1 / s, 1e-11); CHECK("no error", errno == 0); } vf::state(n); }
}
#endif
#if !defined(SZ) || SZ == 7
// ---- A07 ----------------------------------------------------------------------------------------
SECTION(sc_dist) { for (int e : ex(-480, 480, 12)) for (unsigned n : {1u, 2u, 3u, 5u, 9u}) { if (!vf::begin("vectors of %u times 2^%d", n, e)) continue; double s = p2(e); auto a = mk<vec<real>>(n, 0, 1), b = mk<vec<real>>(n, 1, 1), x = mk<vec<real>>(n, 0, s), y = mk<vec<real>>(n, 1, s); errno = 0; double r = 1e-13;
	SC("l1", algebra::l1_norm(x), algebra::l1_norm(a), s, r); SC("l2", algebra::l2_norm(x), algebra::l2_norm(a), s, r); SC("linf", algebra::linf_norm(x), algebra::linf_norm(a), s, r); SC("Euclidean", algebra::euclidean_distance(x, y), algebra::euclidean_distance(a, b), s, r); SC("Manhattan", algebra::manhattan_distance(x, y), algebra::manhattan_distance(a, b), s, r); SC("Chebyshev", algebra::chebyshev_distance(x, y), algebra::chebyshev_distance(a, b), s, r); SC("Canberra", algebra::canberra_distance(x, y), algebra::canberra_distance(a, b), 1, r); if (e > -240 && e < 240) NEAR("cosine", algebra::cosine_distance(x, y), algebra::cosine_distance(a, b), r, r); if (e > -40) { EQ("Hamming", (double) algebra::hamming_distance(x, y), (double) algebra::hamming_distance(a, b)); EQ("discrete", (double) algebra::discrete_distance(x, y), (double) algebra::discrete_distance(a, b)); } if (std::abs(e) <= 300) for (unsigned p : {1u, 2u, 3u}) { SC("lp", algebra::lp_norm(x, p), algebra::lp_norm(a, p), s, 1e-8); SC("Minkowski", algebra::minkowski_distance(x, y, p), algebra::minkowski_distance(a, b, p), s, 1e-8); }
	vec<complex<real>> zx(n), zy(n), za(n), zb(n); for (unsigned i = 0; i < n; ++i) { za[i] = complex<real>(el(i, 0), el(i, 1)); zb[i] = complex<real>(el(i, 1), -el(i, 2)); zx[i] = complex<real>(el(i, 0) * s, el(i, 1) * s); zy[i] = complex<real>(el(i, 1) * s, -el(i, 2) * s); } if (std::abs(e) < 240) SC("Hermitian", algebra::hermitian_distance(zx, zy).Re(), algebra::hermitian_distance(za, zb).Re(), s, 1e-12); CHECK("no error", errno == 0); vf::state(e * 10 + n); } }
#endif
#if !defined(SZ) || SZ == 9
// ---- I01, I02, P01, Q01, F01 ----------------------------------------------------------------------
SECTION(sc_spline) { for (int e : ex(-30, 300, 15)) for (int f : {-300, -40, 0, 40, 300}) for (int o : {0, 1, -40}) { if (f - 3 * e < -950) continue; if (!vf::begin("spline in units 2^%d, 2^%d, origin %d", e, f, o)) continue; double s = p2(e), t = p2(f); unsigned n = 7; vec<real> X(n), Y(n), x(n), y(n); std::vector<vec<real, 2>> P; real v = o; for (unsigned i = 0; i < n; ++i) { X[i] = v; Y[i] = el(i, 0) / 8; x[i] = X[i] * s; y[i] = Y[i] * t; P.push_back({x[i], y[i]}); v += i % 3 == 0 ? 0.5 : i % 3 == 1 ? 1 : 2.25; } errno = 0; spline A(X, Y), B(x, y), C(P); for (unsigned i = 0; i + 1 < n; ++i) for (double u : {0., 0.25, 0.5, 0.875}) { real z = X[i] + u * (X[i + 1] - X[i]); NEAR("value", B(z * s), (L) A(z) * t, 1e-10, 1e-10 * t); NEAR("value", C(z * s), (L) A(z) * t, 1e-10, 1e-10 * t); NEAR("derivative", B.deriv(z * s), (L) A.deriv(z) * t / s, 1e-10, 1e-10 * t / s); } CHECK("no error", errno == 0); vf::state(e); }
	for (int e : ex(-300, 300, 25)) if (vf::begin("scalar interpolation in units 2^%d", e)) { double s = p2(e); errno = 0; for (double a : {-3., 0., 1.}) for (double b : {-1., 2., 8.}) for (double u : {0., 0.25, 0.5, 1.}) { NEAR("lerp", lerp(a * s, b * s, u), ((L) a + (b - a) * u) * s, 1e-14, 1e-15 * s); if (a != b) { NEAR("invlerp", invlerp(a * s, b * s, (a + (b - a) * u) * s), u, 1e-13, 1e-13); NEAR("remap", remap(a * s, b * s, 2 * s, 6 * s, (a + (b - a) * u) * s), (2 + 4 * (L) u) * s, 1e-13, 0); } } CHECK("no error", errno == 0); }
	for (int e : ex(-300, 300, 25)) for (unsigned n = 2; n <= 6; ++n) if (vf::begin("Bezier curve of %u points in units 2^%d", n, e)) { double s = p2(e); std::vector<vec<real, 2>> p, q; for (unsigned i = 0; i < n; ++i) { p.push_back({el(i, 0), el(i, 1)}); q.push_back({el(i, 0) * s, el(i, 1) * s}); } for (double t : {0., 0.25, 0.5, 1.}) sc("curve", bezier(q, t), bezier(p, t), s, 1e-13); }
}
SECTION(sc_interp) { for (int e : ex(-10, 40, 5)) for (int f : {-40, 0, 100}) for (unsigned n = 1; n <= 5; ++n) { if (!vf::begin("Lagrange polynomial of %u points in units 2^%d, 2^%d", n, e, f)) continue; double s = p2(e), t = p2(f); std::vector<vec<real, 2>> p; for (unsigned i = 0; i < n; ++i) p.push_back({((i * 2) % 5 - 2.0) * s, el(i, 0) * t}); errno = 0; auto q = lagrange_polynomial(p); for (auto& v : p) NEAR("passes through its points", q(v[0]), v[1], 0, 1e-11 * t * 30); CHECK("no error", errno == 0); vf::state(e); }
	for (int e : ex(-10, 40, 5)) for (unsigned n = 0; n <= 5; ++n) { static double s; s = p2(e); if (!vf::begin("interpolation of order %u in units 2^%d", n, e)) continue; real_function f = [](real x) -> real { real u = x / s; return 1 + u * (u - 2); }; real_function g = [](real x) -> real { return 3.5; }; errno = 0; auto a = n >= 2 ? interpolate_grid(f, -s, 2 * s, n) : interpolate_grid(g, -s, 2 * s, n); auto b = n >= 2 ? interpolate_chebyshev(f, -s, 2 * s, n) : interpolate_chebyshev(g, -s, 2 * s, n); for (double u : {-1., -0.3, 0., 1.1, 2.}) { L w = n >= 2 ? 1 + u * ((L) u - 2) : 3.5L; NEAR("grid", a(u * s), w, 0, 1e-10); NEAR("Chebyshev", b(u * s), w, 0, 1e-10); } CHECK("no error", errno == 0); } }
SECTION(sc_poly) { for (int e : ex(-40, 300, 10)) words_upto<real>({-2, 0, 1, 3}, 1, 3, [&](const std::vector<real>& c) { words_upto<real>({-1, 0, 2}, 1, 2, [&](const std::vector<real>& d) { if (c.back() == 0 || d.back() == 0) return; if (!vf::begin("polynomials of %zu and %zu coefficients in units 2^%d", c.size(), d.size(), e)) return; double s = p2(e); polynomial<real> p, q, x, y; for (real v : c) { p.coeff.push_back(v); x.coeff.push_back(v * s); } for (real v : d) { q.coeff.push_back(v); y.coeff.push_back(v * s); } errno = 0; auto cmp = [&](const char* t, const polynomial<real>& a, const polynomial<real>& b, double k) { ++vf::S().checks; for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { double u = i < a.size() ? a[i] : 0, w = (i < b.size() ? b[i] : 0) * k; if (!(std::fabs(u - w) <= 1e-13 * k)) { vf::fail(t, "coefficient %zu is %g for %g", i, u, w); return; } } }; cmp("sum", x + y, p + q, s); cmp("difference", x - y, p - q, s); cmp("product", x * y, p * q, s * s); cmp("quotient", x / y, p / q, 1); cmp("derivative", deriv(x), deriv(p), s); cmp("antiderivative", integral(x), integral(p), s); cmp("multiple", p * s, p, s); EQ("order", x.find_order(), p.find_order()); NEAR("evaluation", x(0.75), (L) p(0.75) * s, 1e-13, 1e-13 * s); NEAR("definite integral", integral(x, -1, 2), (L) integral(p, -1, 2) * s, 1e-12, 1e-12 * s); CHECK("no error", errno == 0); }); });
	for (int e : ex(-15, 100, 5)) for (int f : {-10, 0, 30}) for (double r1 : {-3., 1., 0.5}) for (double r2 : {-1., 0., 2., 1.}) if (vf::begin("quadratic with roots %g and %g in units 2^%d, 2^%d", r1, r2, e, f)) { double s = p2(e), t = p2(f); if (f - 0 < -40) continue; polynomial<real> p = {r1 * r2 * s * s * t, -(r1 + r2) * s * t, t}; errno = 0; auto r = p.quadratic_roots(); double a = r[0].Re(), b = r[1].Re(); if (a > b) std::swap(a, b); NEAR("smaller root", a, std::min(r1, r2) * s, 1e-7, 1e-12 * s); NEAR("larger root", b, std::max(r1, r2) * s, 1e-7, 1e-12 * s); CHECK("no error", errno == 0); } }
SECTION(sc_fft) { for (int e : ex(-900, 900, 30)) for (unsigned n : {1u, 2u, 4u, 8u, 16u, 32u}) if (vf::begin("transform of %u values in units 2^%d", n, e)) { double s = p2(e); vec<complex<real>> a(n), x(n); for (unsigned i = 0; i < n; ++i) { a[i] = complex<real>(el(i, 0), el(i, 1)); x[i] = complex<real>(el(i, 0) * s, el(i, 1) * s); } errno = 0; auto A = signal::fft(a), X = signal::fft(x), Y = signal::ifft(X); for (unsigned i = 0; i < n && i < X.size(); ++i) { NEAR("real part", X[i].Re(), (L) A[i].Re() * s, 1e-14, 1e-13 * s); NEAR("imaginary part", X[i].Im(), (L) A[i].Im() * s, 1e-14, 1e-13 * s); NEAR("inverse", Y[i].Re(), x[i].Re(), 1e-12, 1e-12 * s * 30); } EQ("size", X.size(), (size_t) n); CHECK("no error", errno == 0); vf::state(e); } }
#endif
#if !defined(SZ) || SZ == 10
// ---- statistics ---------------------------------------------------------------------------------
SECTION(sc_stats) { for (int e : ex(-25, 450, 19)) for (unsigned n : {2u, 3u, 5u, 9u}) { if (!vf::begin("dataset of %u in units 2^%d", n, e)) continue; double s = p2(e); auto a = mk<vec<real>>(n, 0, 1), b = mk<vec<real>>(n, 1, 1), x = mk<vec<real>>(n, 0, s), y = mk<vec<real>>(n, 1, s); errno = 0; double r = 1e-12;
	SC("mean", stats::mean(x), stats::mean(a), s, r); SC("range", stats::range(x), stats::range(a), s, r); SC("semidispersion", stats::semidispersion(x), stats::semidispersion(a), s, r); SC("total sum of squares", stats::total_sum_squares(x), stats::total_sum_squares(a), s * s, r); SC("variance", stats::variance(x), stats::variance(a), s * s, r); SC("deviation", stats::stdev(x), stats::stdev(a), s, r); SC("of the mean", stats::stdom(x), stats::stdom(a), s, r); SC("covariance", stats::covariance(x, y), stats::covariance(a, b), s * s, 1e-10); if (e < 250) { NEAR("correlation", stats::correlation_coefficient(x, y), stats::correlation_coefficient(a, b), 1e-10, 1e-10); } NEAR("skewness", stats::skewness(x), stats::skewness(a), 1e-9, 1e-10); NEAR("kurtosis", stats::kurtosis(x), stats::kurtosis(a), 1e-9, 1e-10); SC("absolute deviation", stats::absolute_deviation(x), stats::absolute_deviation(a), s, r); NEAR("autocorrelation", stats::autocorrelation(x, 1), stats::autocorrelation(a, 1), 1e-10, 1e-10); NEAR("relative error", stats::standard_relative_error(x), stats::standard_relative_error(a), 1e-10, 0); auto z = stats::normalize_z_score(x), w = stats::normalize_z_score(a); sc("Z-scores", z, w, 1, 1e-12); SC("quadrature", stats::propagate_sum(x), stats::propagate_sum(a), s, r); CHECK("no error", errno == 0); vf::state(e * 10 + n); } }
SECTION(sc_regression) {
	for (double v : {0.1, 1000.1, -7.3e-9, 1e7 / 3, 1e-20, 3.3e40}) for (unsigned n = 3; n <= (vf::thorough() ? 200u : 40u); ++n) if (vf::begin("%u points at the same abscissa %g", n, v)) { vec<real> X(n), Y(n), E(n); for (unsigned i = 0; i < n; ++i) { X[i] = v; Y[i] = el(i, 0); E[i] = 0.5 + i % 3; } real a = 1, b = 1; errno = 0; regression::ols_linear(X, Y, a, b); CHECK("ordinary fit refused", errno != 0 && a != a && b != b); errno = 0; regression::linear_model m(X, Y, E); CHECK("weighted fit refused", errno != 0 && m.A != m.A && m.B != m.B); errno = 0; regression::linear_model k(X, Y, 0.5); CHECK("fit refused", errno != 0 && k.A != k.A && k.B != k.B); }
	for (int e : ex(-150, 150, 16)) for (int f : {-40, 0, 150}) for (unsigned n : {3u, 4u, 7u}) { if (!vf::begin("fit of %u points in units 2^%d, 2^%d", n, e, f)) continue; double s = p2(e), t = p2(f); vec<real> X(n), Y(n), E(n), x(n), y(n), d(n); for (unsigned i = 0; i < n; ++i) { X[i] = (int) ((i * 5) % 9) - 3; Y[i] = el(i, 0) / 4 + X[i]; E[i] = 0.5 + i % 3; x[i] = X[i] * s; y[i] = Y[i] * t; d[i] = E[i] * t; } errno = 0; double r = 1e-9;
	regression::linear_model m(X, Y), M(x, y), w(X, Y, E), W(x, y, d), k(X, Y, 0.5), K(x, y, 0.5 * t); SC("intercept", M.A, m.A, t, r); SC("slope", M.B, m.B, t / s, r); SC("error", M.err, m.err, t, r); SC("intercept", W.A, w.A, t, r); SC("slope", W.B, w.B, t / s, r); SC("sigma A", W.sigma_A, w.sigma_A, t, r); SC("sigma B", W.sigma_B, w.sigma_B, t / s, r); NEAR("chi squared", W.chi_squared, w.chi_squared, r, r); NEAR("p-value", W.p_value, w.p_value, 1e-8, 1e-12); SC("sigma A", K.sigma_A, k.sigma_A, t, r); SC("sigma B", K.sigma_B, k.sigma_B, t / s, r); SC("slope", regression::ols_linear_slope(x, y), m.B, t / s, r); SC("intercept", regression::ols_linear_intercept(x, y), m.A, t, r); real b, sb, B, sB; regression::ols_linear_orig(X, Y, 0.5, b, sb); regression::ols_linear_orig(x, y, 0.5 * t, B, sB); SC("slope through the origin", B, b, t / s, r); SC("its error", sB, sb, t / s, r); CHECK("no error", errno == 0); vf::state(e * 10 + n); } }
SECTION(sc_dens) { using namespace distribution; for (int e : ex(-40, 100, 7)) for (double x : {-3., -1., -0.25, 0., 0.5, 1., 2.5, 8.}) for (double m : {-1., 0., 2.}) for (double g : {0.5, 1., 3.}) { if (!vf::begin("densities at %g with %g, %g in units 2^%d", x, m, g, e)) continue; double s = p2(e); errno = 0; double r = 1e-7, z = 1e-12 / s;
	NEAR("Gaussian", gaussian(x * s, m * s, g * s), (L) gaussian(x, m, g) / s, r, z); NEAR("Cauchy", cauchy(x * s, m * s, g * s), (L) cauchy(x, m, g) / s, r, 0); NEAR("Breit-Wigner", breit_wigner(x * s, m * s, g * s), (L) breit_wigner(x, m, g) / s, r, 0); NEAR("Laplace", laplace(x * s, m * s, g * s), (L) laplace(x, m, g) / s, r, z); NEAR("exponential", exponential(x * s, g / s), (L) exponential(x, g) / s, r, z); NEAR("Rayleigh", rayleigh(x * s, g * s), (L) rayleigh(x, g) / s, r, z); NEAR("Maxwell", maxwell(x * s, g * s), (L) maxwell(x, g) / s, r, z); NEAR("Erlang", erlang(x * s, 3, g / s), (L) erlang(x, 3, g) / s, r, z); NEAR("Pareto", pareto(x * s, g * s, 2), (L) pareto(x, g, 2) / s, r, z); CHECK("no error", errno == 0); vf::state(e); } }
SECTION(sc_prop) { typedef multidual<2> M2; struct F { static M2 f(vec<M2, 2> v) { return v[0] * v[1] + v[0] * v[0] * 3.0; } }; for (int e : ex(-100, 150, 10)) for (int f : {-100, 0, 100}) for (double a : {-2., 0.5}) for (double b : {0., 3.}) { if (!vf::begin("propagation at %g, %g in units 2^%d, errors 2^%d", a, b, e, f)) continue; double s = p2(e), t = p2(f); vec<real, 2> x = {a * s, b * s}, d = {0.5 * t, 2 * t}; L gx = (b + 6 * (L) a) * s, gy = (L) a * s; mat<real, 2, 2> c; c(0, 0) = 0.25 * t * t; c(1, 1) = 4 * t * t; c(0, 1) = c(1, 0) = 0.5 * t * t; errno = 0; NEAR("independent", stats::error_propagation<2>(F::f, x, d), sqrtl(gx * gx * 0.25L + gy * gy * 4) * t, 1e-10, 0); NEAR("covariance", stats::error_propagation<2>(F::f, x, c), sqrtl(gx * gx * 0.25L + gy * gy * 4 + gx * gy) * t, 1e-10, 0); CHECK("no error", errno == 0); vf::state(e); } }
SECTION(sc_histogram) { for (int e : ex(-300, 300, 12)) for (unsigned bins : {1u, 2u, 5u, 16u}) for (double off : {0., -4., 100.}) { if (!vf::begin("histogram of %u bins from %g in units 2^%d", bins, off, e)) continue; double s = p2(e); histogram h(bins, off * s, (off + 8) * s), g(bins, off, off + 8); errno = 0; for (int i = -8; i <= 72; ++i) { double v = off + i * 0.125; h.insert(v * s); g.insert(v); } EQ("number", h.number(), g.number()); for (unsigned i = 0; i < bins; ++i) EQ("bin", h[i], g[i]); NEAR("mean", h.mean(), (L) g.mean() * s, 1e-11, 1e-11 * s); NEAR("maximum", h.max(), (L) g.max() * s, 0, 0); NEAR("minimum", h.min(), (L) g.min() * s, 0, 0); NEAR("sum of squares", h.tss(), (L) g.tss() * s * s, 1e-10, 0); CHECK("no error", errno == 0); vf::state(e); } }
SECTION(sc_reduce) { for (int e : ex(-900, 900, 25)) for (unsigned n : {1u, 2u, 3u, 5u, 9u}) { if (!vf::begin("reductions of %u values in units 2^%d", n, e)) continue; double s = p2(e); auto a = mk<vec<real>>(n, 0, 1), x = mk<vec<real>>(n, 0, s), p = mk<vec<real>>(n, 2, 1), q = mk<vec<real>>(n, 2, s), w = mk<vec<real>>(n, 2, 0.5); errno = 0; double r = 1e-13; SC("sum", sum(x), sum(a), s, r); SC("compensated", sum_compensated(x), sum(a), s, r); SC("pairwise", sum_pairwise(x), sum(a), s, r); SC("maximum", max(x), max(a), s, 0); SC("minimum", min(x), min(a), s, 0); SC("arithmetic mean", arithmetic_mean(x), arithmetic_mean(a), s, r); SC("weighted mean", weighted_mean(x, w), weighted_mean(a, w), s, r); SC("product sum", product_sum(x, w), product_sum(a, w), s, r); if (std::abs(e) < 480) { SC("squares", sum_squares(x), sum_squares(a), s * s, r); SC("quadratic mean", quadratic_mean(q), quadratic_mean(p), s, r); } if (std::abs(e) < 40) SC("harmonic mean", harmonic_mean(q), harmonic_mean(p), s, r); if (std::abs(e) * (int) n < 900) { SC("product", product(q), product(p), std::pow(s, n), r); SC("geometric mean", geometric_mean(q), geometric_mean(p), s, 1e-9); } CHECK("no error", errno == 0); vf::state(e); } }
#endif
#if !defined(SZ) || SZ == 12
// ---- O03, Q04, X, R02 -----------------------------------------------------------------------------
SECTION(sc_ode) { typedef vec<real, 2> W; typedef std::function<W(real, const W&)> F; for (int e : ex(-20, 60, 5)) for (int f : {-300, -30, 0, 30, 300}) for (double h : {0.125, 0.3, 1.}) { if (!vf::begin("x' = (t, -x) to 2 by %g in units 2^%d, 2^%d", h, e, f)) continue; double s = p2(e), t = p2(f); F a = [](real u, const W& v) { return W({v[1] + u, -v[0]}); }, b = [&](real u, const W& v) { return W({(v[1] + u / s * t) / s, -v[0] / s}); }; W x0 = {1, -0.5}, y0 = {t, -0.5 * t}; errno = 0; auto cmp = [&](const char* n, const auto& P, const auto& Q) { ++vf::S().checks; if (P.t.size() != Q.t.size() || P.x.size() != Q.x.size()) { vf::fail(n, "%zu rows instead of %zu", (size_t) Q.t.size(), (size_t) P.t.size()); return; } for (size_t i = 0; i < P.t.size(); ++i) if (!(std::fabs(Q.t[i] - P.t[i] * s) <= 1e-13 * s && std::fabs(Q.x[i][0] - P.x[i][0] * t) <= 1e-12 * t && std::fabs(Q.x[i][1] - P.x[i][1] * t) <= 1e-12 * t)) { vf::fail(n, "row %zu differs", i); return; } };
	cmp("Euler", ode::solve_euler(a, x0, 0, 2, h), ode::solve_euler(b, y0, 0, 2 * s, h * s)); cmp("midpoint", ode::solve_midpoint(a, x0, 0, 2, h), ode::solve_midpoint(b, y0, 0, 2 * s, h * s)); cmp("Heun", ode::solve_heun(a, x0, 0, 2, h), ode::solve_heun(b, y0, 0, 2 * s, h * s)); cmp("RK2", ode::solve_rk2(a, x0, 0, 2, h), ode::solve_rk2(b, y0, 0, 2 * s, h * s)); cmp("RK4", ode::solve_rk4(a, x0, 0, 2, h), ode::solve_rk4(b, y0, 0, 2 * s, h * s)); cmp("3/8", ode::solve_k38(a, x0, 0, 2, h), ode::solve_k38(b, y0, 0, 2 * s, h * s)); CHECK("no error", errno == 0); vf::state(e); } }
SECTION(sc_extrema) { for (int e : ex(-10, 10, 2)) for (int f : ex(-200, 200, 40)) for (double c : {-0.75, 0.25, 1.5}) for (double a : {-3., -1.}) { if (!vf::begin("parabola at %g from %g in units 2^%d, 2^%d", c, a, e, f)) continue; double s = p2(e), t = p2(f); auto g = [&](real x) -> real { return ((x / s - c) * (x / s - c) + 1) * t; }; auto m = [&](real x) -> real { return -((x / s - c) * (x / s - c) + 1) * t; }; errno = 0; NEAR("minimum", minimize_goldensection(g, a * s, 3 * s), c * s, 0, 3e-7 * std::max(1.0, s)); NEAR("maximum", maximize_goldensection(m, a * s, 3 * s), c * s, 0, 3e-7 * std::max(1.0, s)); CHECK("no error", errno == 0); vf::state(e); } }
#endif
VF_MAIN
