// Calculus: exactness classes and order conditions, over every polynomial of a basis, interval and step count.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
typedef long double L;
typedef polynomial<real> P;
typedef std::vector<real> V;
static P mk(const V& v) { P p; p.coeff = v; return p; }
static L ev(const V& v, L x) { L r = 0; for (size_t i = v.size(); i-- > 0;) r = v[i] + x * r; return r; }
static L dv(const V& v, L x) { L r = 0; for (size_t i = v.size(); i-- > 1;) r = v[i] * i + x * r; return r; }
static L ddv(const V& v, L x) { L r = 0; for (size_t i = v.size(); i-- > 2;) r = v[i] * (L) (i * (i - 1)) + x * r; return r; }
static L in(const V& v, L a, L b) { L r = 0; for (size_t i = 0; i < v.size(); ++i) r += v[i] * (powl(b, i + 1) - powl(a, i + 1)) / (i + 1); return r; }
static L mag(const V& v, L a, L b) { L m = std::max(fabsl(a), fabsl(b)), r = 0; if (m < 1) m = 1; for (size_t i = 0; i < v.size(); ++i) r += fabsl(v[i]) * powl(m, i + 1); return r + 1; }
static const std::vector<std::pair<real, real>> IV = {{-1, 1}, {0, 1}, {0.5, 3}, {-2, -0.25}, {1, 1}, {2, -1}};

SECTION(polyn_exact) {
	words_upto<real>({-2, 0, 0.5, 3}, 0, vf::thorough() ? 6 : 5, [&](const V& c) {
		if (!vf::begin("polynomial %s", show(c).c_str())) return;
		const P p = mk(c); errno = 0;
		if (c.empty()) { P d = deriv(p); CHECK("derivative of an empty polynomial refused", errno == EINVAL && d.size() == 1 && d[0] != d[0]); errno = 0; }
		else { P d = deriv(p); for (size_t i = 0; i < std::max(d.size(), c.size()); ++i) { L w = i + 1 < c.size() ? c[i + 1] * (i + 1) : 0; NEAR("derivative coefficient", i < d.size() ? d[i] : 0, w, 1e-14, 0); } EQ("size", d.size(), c.size() > 1 ? c.size() - 1 : 1); }
		P q = integral(p); EQ("antiderivative size", q.size(), c.size() + 1); for (size_t i = 0; i < q.size(); ++i) NEAR("antiderivative coefficient", q[i], i ? (L) c[i - 1] / i : 0, 1e-14, 0);
		if (!c.empty()) { P b = deriv(q); for (size_t i = 0; i < b.size(); ++i) NEAR("derivative of the antiderivative", b[i], c[i], 1e-14, 0); }
		for (real x : {-2., -0.5, 0., 1., 3.}) NEAR("derivative at a point", deriv(p, x), dv(c, x), 1e-12, 1e-12);
		for (auto& v : IV) NEAR("definite integral", integral(p, v.first, v.second), in(c, v.first, v.second), 1e-11, 1e-11);
		CHECK("no error", errno == 0); CHECK("kept", p.coeff == c);
	});
	for (unsigned n = 0; n <= 40; ++n) if (vf::begin("x^%u", n)) { P p = P::monomial(1, n); V c(n + 1, 0); c[n] = 1; NEAR("deriv", deriv(p, 0.9), dv(c, 0.9), 1e-11, 1e-13); NEAR("integral", integral(p, -0.5, 1.1), in(c, -0.5, 1.1), 1e-11, 1e-13); }
	words_upto<real>({-2, 0, 1}, 1, 3, [&](const V& c) { if (!vf::begin("complex polynomial %s", show(c).c_str())) return; polynomial<complex<>> p; for (real x : c) p.coeff.push_back(complex<>(x, 1)); auto d = deriv(p); auto q = integral(p); for (size_t i = 1; i < c.size(); ++i) { NEAR("complex derivative", d[i - 1].Re(), c[i] * i, 1e-12, 1e-12); NEAR("complex derivative", d[i - 1].Im(), i, 1e-12, 1e-12); } for (size_t i = 0; i < c.size(); ++i) { NEAR("complex antiderivative", q[i + 1].Re(), (L) c[i] / (i + 1), 1e-12, 1e-12); NEAR("complex antiderivative", q[i + 1].Im(), 1.0L / (i + 1), 1e-12, 1e-12); } });
}
SECTION(polyn_long) { // every number of coefficients
	for (unsigned n = 1; n <= 700; n = n < 300 ? n + 1 : n + 40) if (vf::begin("%u coefficients", n)) { V c(n); for (unsigned i = 0; i < n; ++i) c[i] = (int) ((i * 5) % 9) - 4; const P p = mk(c); errno = 0; P d = deriv(p), q = integral(p); EQ("size", d.size(), n > 1 ? n - 1 : 1); EQ("size", q.size(), n + 1); for (unsigned i = 1; i < n && i - 1 < d.size(); ++i) NEAR("derivative coefficient", d[i - 1], (L) c[i] * i, 1e-15, 0); for (unsigned i = 0; i < n && i + 1 < q.size(); ++i) NEAR("antiderivative coefficient", q[i + 1], (L) c[i] / (i + 1), 1e-15, 0); for (real x : {-0.9, 0.35, 0.99, 1.0, -1.0}) { L m = 0; for (unsigned i = 1; i < n; ++i) m += fabsl((L) c[i]) * i * powl(fabsl((L) x), i - 1); NEAR("derivative at a point", deriv(p, x), dv(c, x), 1e-12, 1e-13 * (double) m); NEAR("definite integral", integral(p, -0.5, x), in(c, -0.5, x), 1e-11, 1e-11); } CHECK("no error", errno == 0); }
}
// a rule is exact for polynomials up to its degree; above it, the error shrinks with the expected order
static void quad(const V& c) {
	int deg = (int) c.size() - 1;
	for (auto& v : IV) {
		real a = v.first, b = v.second; if (!vf::begin("integrate %s over [%g,%g]", show(c).c_str(), a, b)) continue;
		unsigned calls = 0; auto f = [&](real x) -> real { ++calls; if (!(x >= std::min(a, b) - 1e-9 && x <= std::max(a, b) + 1e-9)) vf::fail("evaluates inside the interval", "f(%g)", x); return ev(c, x); };
		L I = in(c, a, b), M = mag(c, a, b); double t = 1e-11 * M; errno = 0; L h, w = fabsl((L) b - a);
		for (unsigned n = 1; n <= 12; ++n) {
			h = w / n; L bound = w * h * h * (M * 40), bound4 = w * powl((L) w / (n + n % 2), 4) * M * 60;
			L m = integral_midpoint(f, a, b, n), z = integral_trapezoid(f, a, b, n), s = integral_simpson(f, a, b, n);
			NEAR("midpoint", m, I, 0, deg <= 1 ? t : (double) bound); NEAR("trapezoid", z, I, 0, deg <= 1 ? t : (double) bound); NEAR("Simpson", s, I, 0, deg <= 3 ? t : (double) bound4);
			if (deg <= 2 && deg >= 2) { NEAR("midpoint error term", I - m, powl((L) b - a, 3) / (24.0L * n * n) * 2 * c[2], 1e-9, t); NEAR("trapezoid error term", I - z, -powl((L) b - a, 3) / (12.0L * n * n) * 2 * c[2], 1e-9, t); }
		}
		for (unsigned k = 1; k <= 8; ++k) if (deg <= (int) (2 * k - 1)) NEAR("Romberg", integral_romberg(f, a, b, k), I, 0, t * 10);
		if (deg <= 9) { NEAR("Romberg to tolerance", integral_romberg_tol(f, a, b), I, 0, 1e-7 + t); NEAR("Romberg to tolerance", integral_romberg_tol(f, a, b, 1e-4), I, 0, 1e-3 + t); NEAR("integral", integral(f, a, b), I, 0, 1e-7 + t); NEAR("integral tol", integral(f, a, b, 1e-10), I, 0, 1e-7 + t); }
		for (unsigned n : {2u, 4u, 8u, 16u, 3u, 5u, 6u, 7u, 10u}) if (deg <= (int) (2 * n - 1)) NEAR("Gauss-Legendre", integral_legendre(f, a, b, n), I, 0, (n == 2 || n == 4 || n == 8 || n == 16 ? 1e-12 : 1e-7) * M);
		if (deg <= 15) NEAR("Gauss-Legendre default", integral_legendre(f, a, b), I, 0, 1e-12 * M);
		CHECK("no error", errno == 0); CHECK("called", calls > 0);
	}
}
SECTION(quad_small) { words_upto<real>({-2, 0, 1}, 1, 4, [&](const V& c) { quad(c); }); }
SECTION(quad_mid) { words<real>({-1.5, 0, 2}, 5, [&](const V& c) { quad(c); }); if (vf::thorough()) words<real>({-1.5, 0, 2}, 7, [&](const V& c) { quad(c); }); }
SECTION(quad_steps) { // every step count of a range, over intervals of every magnitude
	static const std::vector<std::pair<real, real>> W = {{0, 1}, {-3, 5}, {1e6, 1e6 + 1}, {-1e-6, 2e-6}, {-1e5, 2e5}, {7, 2}, {1e-30, 3e-30}, {1e30, 4e30}};
	for (auto& v : W) for (unsigned n = 1; n <= 1025; n = n < (vf::thorough() ? 512 : 200) ? n + 1 : n < 511 ? 511 : n < 513 ? n + 1 : n < 999 ? 999 : n + 1) {
		real a = v.first, b = v.second, w = b - a; if (!vf::begin("%u steps over [%g,%g]", n, a, b)) continue; errno = 0;
		for (int d = 0; d <= 4; ++d) { // ((x-a)/w)^d, whose integral is w/(d+1)
			unsigned calls = 0; auto f = [&](real x) -> real { ++calls; L t = ((L) x - a) / w, r = 1; for (int i = 0; i < d; ++i) r *= t; return r; };
			L I = (L) w / (d + 1), aw = fabsl((L) w), e = fabsl((L) a) > 1e3 * aw ? 1e-9 : 1e-12; double t = (double) (e * aw), h2 = (double) (d * aw / n / n / 3), h4 = (double) (aw / powl((L) n, 4) * 2);
			NEAR("midpoint", integral_midpoint(f, a, b, n), I, 0, t + (d > 1 ? h2 : 0)); NEAR("trapezoid", integral_trapezoid(f, a, b, n), I, 0, t + (d > 1 ? h2 : 0)); NEAR("Simpson", integral_simpson(f, a, b, n), I, 0, t + (d > 3 ? h4 : 0)); CHECK("called", calls >= n);
		}
		CHECK("no error", errno == 0);
	}
	for (auto& v : W) for (unsigned k = 1; k <= 14; ++k) { real a = v.first, b = v.second, w = b - a; if (!vf::begin("Romberg level %u over [%g,%g]", k, a, b)) continue; for (int d = 0; d <= 9; ++d) if (d <= (int) (2 * k - 1)) { auto f = [&](real x) -> real { L t = ((L) x - a) / w, r = 1; for (int i = 0; i < d; ++i) r *= t; return r; }; NEAR("Romberg", integral_romberg(f, a, b, k), (L) w / (d + 1), 0, (double) (fabsl((L) a) > 1e3 * fabsl((L) w) ? 1e-9 : 1e-11) * std::fabs(w)); } }
	for (auto& v : W) for (unsigned n : {2u, 4u, 8u, 16u, 3u, 5u, 9u}) { real a = v.first, b = v.second, w = b - a; if (!vf::begin("Gauss-Legendre %u over [%g,%g]", n, a, b)) continue; for (int d = 0; d <= (int) (2 * n - 1); ++d) { auto f = [&](real x) -> real { L t = ((L) x - a) / w, r = 1; for (int i = 0; i < d; ++i) r *= t; return r; }; NEAR("Gauss-Legendre", integral_legendre(f, a, b, n), (L) w / (d + 1), 0, (n & (n - 1) ? 1e-7 : 1e-9) * std::fabs(w)); } }
}
SECTION(quad_high) { for (unsigned d = 5; d <= 9; ++d) words<real>({-1, 2}, vf::thorough() ? 4 : 2, [&](const V& e) { V c(d + 1, 0); for (size_t i = 0; i < e.size(); ++i) c[d - i * d / e.size()] += e[i]; quad(c); }); }
SECTION(quad_chance) { // integrands whose first estimates agree by chance
	for (auto& v : IV) { real a = v.first, b = v.second, m = (a + b) / 2; if (a == b) continue; for (int k = 1; k <= 4; ++k) { P p = P({1}); for (int i = 0; i < k; ++i) p *= P({-a, 1}) * P({-b, 1}); p *= P({-m, 1}) * P({-m, 1}); if (p.size() > 10) continue; quad(p.coeff); } }
	for (real k : {1., 2., 3., 5.}) for (int fn = 0; fn < 3; ++fn) { if (!vf::begin("smooth integrand %d k=%g", fn, k)) continue; auto f = [&](real x) -> real { return fn == 0 ? std::exp(k * x) : fn == 1 ? std::sin(k * x) : 1 / (k + x * x); }; auto F = [&](L x) -> L { return fn == 0 ? expl(k * x) / k : fn == 1 ? -cosl(k * x) / k : atanl(x / sqrtl(k)) / sqrtl(k); }; L a = -0.3L, b = 1.1L, I = F(b) - F(a), sc = fn == 0 ? expl(k * 1.1L) : 1; errno = 0;
		NEAR("integral", integral(f, a, b), I, 1e-7, 1e-7 * sc); NEAR("Gauss-Legendre", integral_legendre(f, a, b), I, 1e-7, 1e-8 * sc); NEAR("Simpson", integral_simpson(f, a, b), I, 1e-7, 1e-7 * sc); NEAR("trapezoid", integral_trapezoid(f, a, b), I, 1e-2, 1e-2 * sc); NEAR("midpoint", integral_midpoint(f, a, b), I, 1e-2, 1e-2 * sc); NEAR("antisymmetric", integral(f, b, a), -I, 1e-7, 1e-7 * sc); NEAR("additive", integral(f, a, 0.4) + integral(f, 0.4, b), I, 1e-7, 1e-7 * sc); CHECK("no error", errno == 0); }
}
SECTION(quad_tolerance) { // the caller's tolerance bounds the error
	for (int fn = 0; fn < 7; ++fn) for (real k : {1., 3., 6.}) for (real A : {1., 1e4, -1e-4}) for (int e = 3; e <= 12; ++e) { real tol = std::pow(10.0, -e) * std::max(1.0, std::fabs(A)); if (!vf::begin("smooth integrand %d k=%g times %g to %g", fn, k, A, tol)) continue; auto f = [&](real x) -> real { return A * (fn == 0 ? std::exp(k * x) : fn == 1 ? std::sin(2 * k * x) : fn == 2 ? 1 / (1 + k * k * x * x) : fn == 3 ? std::cos(3 * k * x) : fn == 4 ? std::exp(-k * x * x) * x : fn == 5 ? 1 / (x + 1.5) : std::log(x + 1.2)); }; auto F = [&](L x) -> L { return A * (fn == 0 ? expl(k * x) / k : fn == 1 ? -cosl(2 * k * x) / (2 * k) : fn == 2 ? atanl(k * x) / k : fn == 3 ? sinl(3 * k * x) / (3 * k) : fn == 4 ? -expl(-k * x * x) / (2 * k) : fn == 5 ? logl(x + 1.5L) : (x + 1.2L) * logl(x + 1.2L) - x); }; real a = -0.9, b = 1.7; L I = F(b) - F(a); double sc = std::fabs(A) * (fn == 0 ? std::exp(k * 1.7) : 1); errno = 0; NEAR("Romberg to tolerance", integral_romberg_tol(f, a, b, tol), I, 0, 2 * tol + 1e-13 * sc); NEAR("integral to tolerance", integral(f, a, b, tol), I, 0, 2 * tol + 1e-13 * sc); NEAR("reversed", integral(f, b, a, tol), -I, 0, 2 * tol + 1e-13 * sc); CHECK("no error", errno == 0); }
	// integrands which vanish on the coarse grids: exact at degree <= 9 all the same
	for (auto& v : IV) { real a = v.first, b = v.second; if (a == b) continue; for (int mask = 0; mask < 128; ++mask) for (int sq = 0; sq < 2; ++sq) { P p = P({1}); for (int i = 1; i <= 7; ++i) if (mask >> (i - 1) & 1) { real x = a + (b - a) * i / 8; p *= P({-x, 1}); if (sq) p *= P({-x, 1}); } p *= P({-a, 1}) * P({-b, 1}); if (p.size() > 10) continue; if (!vf::begin("integrand with zeros %d %d over [%g,%g]", mask, sq, a, b)) continue; V c = p.coeff; auto f = [&](real x) -> real { return ev(c, x); }; L I = in(c, a, b), M = mag(c, a, b); NEAR("integral", integral(f, a, b), I, 0, 1e-11 * (double) M); NEAR("Romberg", integral_romberg(f, a, b, 5), I, 0, 1e-11 * (double) M); } }
}
SECTION(quad_many) { // step counts beyond 16 bits, deep Romberg tables
	for (unsigned n : {4095u, 32767u, 32768u, 65535u, 65536u, 65537u, 70001u, 131072u, 200003u}) if (vf::begin("%u steps", n)) { auto f = [](real x) -> real { return 3 * x * x + x; }; L I = 8 + 2 + 1 - 0.5L; errno = 0; NEAR("midpoint", integral_midpoint(f, -1, 2, n), 9 + 1.5L, 1e-7, 0); NEAR("trapezoid", integral_trapezoid(f, -1, 2, n), 9 + 1.5L, 1e-7, 0); NEAR("Simpson", integral_simpson(f, -1, 2, n), 9 + 1.5L, 1e-11, 0); (void) I; auto g = [](real x) -> real { return 2 * x + 1; }; NEAR("midpoint", integral_midpoint(g, -1, 2, n), 6, 1e-11, 0); NEAR("trapezoid", integral_trapezoid(g, -1, 2, n), 6, 1e-11, 0); CHECK("no error", errno == 0); }
	for (unsigned k = 10; k <= 19; ++k) if (vf::begin("Romberg level %u", k)) { errno = 0; for (int d = 0; d <= 5; ++d) { auto f = [d](real x) -> real { return std::pow(x, d); }; NEAR("Romberg", integral_romberg(f, -1, 2, k), (powl(2, d + 1) - powl(-1, d + 1)) / (d + 1), 1e-10, 1e-10); } CHECK("no error", errno == 0); }
	for (unsigned n : {2u, 4u, 8u}) { real* lr = n == 2 ? tables::laguerre_roots_2 : n == 4 ? tables::laguerre_roots_4 : tables::laguerre_roots_8; V l(lr, lr + n); for (unsigned k = 0; k < 2 * n && k <= 5; ++k) for (real a : {0., 0.25, 0.5, 1., 2.}) for (real b : {0., 0.3, 1., 1.5, 3., 6.}) if (vf::begin("%u nodes, x^%u exp(-x) over [%g,%g]", n, k, a, b)) { auto F = [&](L x) { L s = 0, t = 1; for (unsigned i = 0; i <= k; ++i) { L q = 1; for (unsigned j = k; j > k - i; --j) q *= j; t = powl(x, k - i); s += q * t; } return -expl(-x) * s; }; auto f = [&](real x) -> real { return std::pow(x, k); }; errno = 0; NEAR("Laguerre over [a,b]", integral_laguerre(f, a, b, l), F(b) - F(a), 1e-7, 1e-7); CHECK("no error", errno == 0); } }
	for (real A : {-1., -250., 1e-3, 40.}) for (real k : {0.25, 0.5, 2.}) for (real a : {-1., 0., 2.}) for (real st : {0.5, 1., 3.}) if (vf::begin("%g exp(-%g x) from %g step %g", A, k, a, st)) { errno = 0; real tol = 1e-8; NEAR("half line", integral_inf_riemann([&](real x) -> real { return A * std::exp(-k * x); }, a, st, tol, 1000), A * expl(-k * a) / k, 1e-6, 1e-6); CHECK("no error", errno == 0); }
}
static L factl(int n) { L r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
SECTION(quad_infinite) {
	for (int k = 0; k <= 31; ++k) { if (!vf::begin("Gauss tables on x^%d", k)) continue; auto f = [&](real x) -> real { return std::pow(x, k); }; errno = 0;
		for (unsigned n : {2u, 4u, 8u, 16u}) if (k <= (int) (2 * n - 1)) { NEAR("Laguerre", integral_laguerre(f, n), factl(k), 1e-11, 0); L w = k % 2 ? 0 : tgammal((k + 1) / 2.0L); NEAR("Hermite", integral_hermite(f, n), w, 1e-11, 1e-11 * (double) tgammal((k + 2) / 2.0L)); }
		if (k <= 15) { NEAR("Laguerre default", integral_laguerre(f), factl(k), 1e-9, 0); NEAR("Hermite default", integral_hermite(f), k % 2 ? 0 : tgammal((k + 1) / 2.0L), 1e-9, 1e-9 * (double) tgammal((k + 2) / 2.0L)); }
		CHECK("no error", errno == 0); }
	for (unsigned n = 0; n <= 20; ++n) if (n != 2 && n != 4 && n != 8 && n != 16) if (vf::begin("no table for %u", n)) { auto f = [](real x) -> real { return x; }; errno = 0; ISNAN("Laguerre", integral_laguerre(f, n)); CHECK("errno", errno == EINVAL); errno = 0; ISNAN("Hermite", integral_hermite(f, n)); CHECK("errno", errno == EINVAL); }
	for (unsigned n : {2u, 4u, 8u}) { if (!vf::begin("explicit nodes %u", n)) continue; real *lr = n == 2 ? tables::laguerre_roots_2 : n == 4 ? tables::laguerre_roots_4 : tables::laguerre_roots_8, *hr = n == 2 ? tables::hermite_roots_2 : n == 4 ? tables::hermite_roots_4 : tables::hermite_roots_8, *er = n == 2 ? tables::legendre_roots_2 : n == 4 ? tables::legendre_roots_4 : tables::legendre_roots_8; real* ew = n == 2 ? tables::legendre_weights_2 : n == 4 ? tables::legendre_weights_4 : tables::legendre_weights_8; V l(lr, lr + n), h(hr, hr + n), e(er, er + n), w(ew, ew + n); errno = 0;
		for (unsigned k = 0; k < 2 * n; ++k) { auto f = [&](real x) -> real { return std::pow(x, k); }; NEAR("Laguerre nodes", integral_laguerre(f, l), factl(k), 1e-7, 0); NEAR("Hermite nodes", integral_hermite(f, h), k % 2 ? 0 : tgammal((k + 1) / 2.0L), 1e-7, 1e-6 * (double) tgammal((k + 2) / 2.0L)); V mono(k + 1, 0); mono[k] = 1; NEAR("Legendre nodes", integral_legendre(f, -1, 2, e), in(mono, -1, 2), 1e-7, 1e-6); NEAR("Legendre nodes and weights", integral_legendre(f, -1, 2, e, w), in(mono, -1, 2), 1e-7, 1e-6); NEAR("Legendre arrays", integral_legendre(f, -1, 2, er, ew, n), in(mono, -1, 2), 1e-7, 1e-6);
			NEAR("Gauss vectors", integral_gauss(f, e, w), in(mono, -1, 1), 1e-7, 1e-7); NEAR("Gauss arrays", integral_gauss(f, er, ew, n), in(mono, -1, 1), 1e-7, 1e-7); NEAR("Gauss with inverse weight", integral_gauss(f, er, ew, n, [](real x) -> real { return 2.0; }), 2 * in(mono, -1, 1), 1e-7, 1e-7);
			// integral over [a,b] of x^k exp(-x): difference of two half lines
			L A = 0.5L, Bq = 2, ref = 0; { L s = 0; int N = 20000; for (int i = 0; i < N; ++i) { L x = A + (Bq - A) * (i + 0.5L) / N; s += powl(x, k) * expl(-x); } ref = s * (Bq - A) / N; } NEAR("Laguerre over [a,b]", integral_laguerre(f, 0.5, 2, l), ref, 1e-5, 1e-6 * (double) factl(k)); }
		CHECK("no error", errno == 0); }
	for (unsigned a = 0; a <= 4; ++a) for (unsigned b = 0; b <= 4; ++b) if (a != b) if (vf::begin("nodes %u weights %u", a, b)) { auto f = [](real x) -> real { return x; }; V x(a, 0.1), w(b, 1.0); errno = 0; ISNAN("Gauss", integral_gauss(f, x, w)); CHECK("errno", errno == EINVAL); errno = 0; ISNAN("Legendre", integral_legendre(f, 0, 1, x, w)); CHECK("errno", errno == EINVAL); }
	for (real k : {0.5, 1., 2.}) for (real a : {-1., 0., 3.}) for (real st : {0.5, 1., 2.}) { if (!vf::begin("exp(-%g x) from %g step %g", k, a, st)) continue; errno = 0; NEAR("half line", integral_inf_riemann([k](real x) -> real { return std::exp(-k * x); }, a, st), expl(-k * a) / k, 1e-6, 1e-6); CHECK("errno", errno == 0); }
	if (vf::begin("divergent")) { errno = 0; ISNAN("divergent integral refused", integral_inf_riemann([](real x) -> real { return 1.0; }, 0)); CHECK("errno", errno != 0); errno = 0; ISNAN("divergent", integral_inf_riemann([](real x) -> real { return 1.0; }, 0, 1, 1e-8, 5)); CHECK("errno", errno != 0); }
	if (vf::begin("no steps")) { auto f = [](real x) -> real { return x; }; errno = 0; ISNAN("midpoint", integral_midpoint(f, 0, 1, 0)); CHECK("errno", errno == ERANGE); errno = 0; ISNAN("trapezoid", integral_trapezoid(f, 0, 1, 0)); CHECK("errno", errno == ERANGE); errno = 0; ISNAN("simpson", integral_simpson(f, 0, 1, 0)); CHECK("errno", errno == ERANGE); errno = 0; ISNAN("romberg", integral_romberg(f, 0, 1, 0)); CHECK("errno", errno == EINVAL); }
}
// ---- numerical derivatives and Taylor ------------------------------------------------------------------
SECTION(nderiv_polyn) {
	words_upto<real>({-2, 0, 1.5}, 1, 6, [&](const V& c) { int deg = (int) c.size() - 1; for (real x : {-1.5, 0., 0.25, 2.}) for (real h : {0.5, 0.125, 0.0078125}) {
		if (!vf::begin("derivative of %s at %g step %g", show(c).c_str(), x, h)) return;
		auto f = [&](real t) -> real { return ev(c, t); }; L D = dv(c, x), D2 = ddv(c, x), M = mag(c, std::fabs(x) + 1, 0); errno = 0; double r = 1e-14 * (double) (M / h);
		// exact values of the finite difference formulas on a polynomial
		L fw = (ev(c, (L) x + h) - ev(c, x)) / h, bw = (ev(c, x) - ev(c, (L) x - h)) / h, ce = (ev(c, (L) x + h) - ev(c, (L) x - h)) / (2 * (L) h);
		NEAR("central", deriv_central(f, x, h), ce, 0, r); NEAR("forward", deriv_forward(f, x, h), fw, 0, r); NEAR("backward", deriv_backward(f, x, h), bw, 0, r);
		if (deg <= 1) { NEAR("forward exact on lines", deriv_forward(f, x, h), D, 0, r); NEAR("backward exact on lines", deriv_backward(f, x, h), D, 0, r); }
		if (deg <= 2) NEAR("central exact on parabolas", deriv_central(f, x, h), D, 0, r);
		if (deg <= 4) { NEAR("Ridders 2", deriv_ridders2(f, x, h), D, 0, 8 * r); NEAR("deriv", deriv(f, x, h), D, 0, 8 * r); }
		for (unsigned g = 1; g <= 4; ++g) if (deg <= (int) (2 * g)) NEAR("Ridders", deriv_ridders(f, x, h, g), D, 0, 100 * r);
		if (deg <= 3) NEAR("second derivative", deriv2(f, x, h), D2, 0, 8 * r / h);
		CHECK("no error", errno == 0);
	} });
	for (int fn = 0; fn < 4; ++fn) for (int i = -10; i <= 10; ++i) { real x = i * 0.3; if (!vf::begin("smooth %d at %g", fn, x)) continue; auto f = [&](real t) -> real { return fn == 0 ? std::exp(t) : fn == 1 ? std::sin(2 * t) : fn == 2 ? 1 / (1 + t * t) : std::atan(t) * t; }; L D = fn == 0 ? expl(x) : fn == 1 ? 2 * cosl(2 * x) : fn == 2 ? -2 * x / powl(1 + (L) x * x, 2) : atanl(x) + x / (1 + (L) x * x), D2 = fn == 0 ? expl(x) : fn == 1 ? -4 * sinl(2 * x) : fn == 2 ? (6 * (L) x * x - 2) / powl(1 + (L) x * x, 3) : 2 / powl(1 + (L) x * x, 2); double s = fn == 0 ? std::exp(x) + 1 : 1;
		NEAR("deriv", deriv(f, x), D, 1e-6, 1e-6 * s); NEAR("central", deriv_central(f, x), D, 1e-5, 1e-5 * s); NEAR("Ridders default", deriv_ridders(f, x), D, 1e-6, 1e-6 * s); NEAR("forward", deriv_forward(f, x), D, 5e-2, 5e-2 * s); NEAR("backward", deriv_backward(f, x), D, 5e-2, 5e-2 * s); NEAR("deriv2", deriv2(f, x), D2, 1e-3, 1e-3 * s); }
}
SECTION(nderiv_signs) { // the step may be negative; extrapolation of every degree is exact on its class
	for (int d = 0; d <= 16; ++d) for (real x : {-1.5, 0., 0.75}) for (real h : {1., -1., 0.5, -0.5, 2., -2.}) { if (!vf::begin("x^%d at %g step %g", d, x, h)) continue; V c(d + 1, 0); c[d] = 1; auto f = [&](real t) -> real { return ev(c, t); }; L D = dv(c, x), M = powl(fabsl(x) + fabsl(h), d) + 1; double r = 1e-14 * (double) M / std::fabs(h); errno = 0;
		L fw = (ev(c, (L) x + h) - ev(c, x)) / h, bw = (ev(c, x) - ev(c, (L) x - h)) / h, ce = (ev(c, (L) x + h) - ev(c, (L) x - h)) / (2 * (L) h), ch = (ev(c, (L) x + h / 2) - ev(c, (L) x - h / 2)) / h, sd = (ev(c, (L) x + h) - 2 * ev(c, x) + ev(c, (L) x - h)) / ((L) h * h);
		NEAR("central", deriv_central(f, x, h), ce, 0, r); NEAR("forward", deriv_forward(f, x, h), fw, 0, r); NEAR("backward", deriv_backward(f, x, h), bw, 0, r); NEAR("Ridders 2", deriv_ridders2(f, x, h), (4 * ch - ce) / 3, 0, 8 * r); NEAR("deriv", deriv(f, x, h), (4 * ch - ce) / 3, 0, 8 * r); NEAR("second derivative", deriv2(f, x, h), sd, 0, 8 * r / std::fabs(h));
		for (unsigned g = 1; g <= 8; ++g) if (d <= (int) (2 * g)) NEAR("Ridders", deriv_ridders(f, x, h, g), D, 0, 100 * r * (1 << g)); CHECK("no error", errno == 0); }
}
SECTION(nderiv_scaled) { // the same derivatives in other units: f(x) = A p((x - a) / s), step s h
	for (real A : {1e-12, 1., -1e12}) for (int e = -100; e <= 100; e += vf::thorough() ? 5 : 20) for (real a0 : {0., 64., -2048.}) words_upto<real>({-2, 0, 1.5}, 1, 5, [&](const V& c) {
		int deg = (int) c.size() - 1; real s = std::ldexp(1.0, e), a = a0 * s; if (!vf::begin("%g * %s((x-%g)/%g)", A, show(c).c_str(), a, s)) return; errno = 0;
		auto f = [&](real x) -> real { return A * (real) ev(c, ((L) x - a) / s); };
		for (real u : {-1., 0.25, 2.}) for (real h : {0.5, 0.015625}) { L D = A * dv(c, u) / s, D2 = A * ddv(c, u) / s / s, M = std::fabs(A) * mag(c, 3, 0); double r = 1e-14 * (double) (M / h / s); real x = a + s * u, k = h * s;
			if (deg <= 1) { NEAR("forward", deriv_forward(f, x, k), D, 0, r); NEAR("backward", deriv_backward(f, x, k), D, 0, r); }
			if (deg <= 2) NEAR("central", deriv_central(f, x, k), D, 0, r);
			if (deg <= 4) { NEAR("Ridders 2", deriv_ridders2(f, x, k), D, 0, 8 * r); NEAR("deriv", deriv(f, x, k), D, 0, 8 * r); }
			for (unsigned g = 1; g <= 6; ++g) if (deg <= (int) (2 * g)) NEAR("Ridders", deriv_ridders(f, x, k, g), D, 0, (g > 4 ? 10000 : 100) * r);
			if (deg <= 3) NEAR("second derivative", deriv2(f, x, k), D2, 0, 8 * r / k);
		}
		CHECK("no error", errno == 0);
	});
}
SECTION(nderiv_taylor) {
	words_upto<real>({-2, 0, 1.5}, 1, 4, [&](const V& c) { for (real x0 : {-1.5, 0., 0.5, 3.}) {
		if (!vf::begin("Taylor of %s at %g", show(c).c_str(), x0)) return;
		auto f1 = [&](dual x) { dual r = dual(0.0); for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }; auto f2 = [&](dual2 x) { dual2 r = dual2(0.0); for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; };
		P l = taylor::expand_linear(f1, x0), q = taylor::expand_quadratic(f2, x0); L a = ev(c, x0), b = dv(c, x0), d = ddv(c, x0);
		for (real x : {-2., -0.5, 0., 1., 4.}) { L h = (L) x - x0; NEAR("linear", l(x), a + b * h, 1e-11, 1e-11); NEAR("quadratic", q(x), a + b * h + d * h * h / 2, 1e-11, 1e-11); }
		CHECK("degree", l.size() <= 2 && q.size() <= 3);
		if (x0 == 0) { P l0 = taylor::expand_linear(f1), q0 = taylor::expand_quadratic(f2); for (size_t i = 0; i < 2; ++i) NEAR("default centre", l0[i], l[i], 0, 0); for (size_t i = 0; i < 3; ++i) NEAR("default centre", q0[i], q[i], 0, 0); }
	} });
}
SECTION(nderiv_taylor_scaled) { // expansions of functions of any amplitude about any point
	for (int e = -40; e <= 40; e += 2) words<real>({-2, 0.75, 3}, 4, [&](const V& c) { for (real x0 : {-1.5, -0.3, 2.7, 40.}) { real A = std::ldexp(1.1, e); if (!vf::begin("Taylor of %g times %s at %g", A, show(c).c_str(), x0)) return; auto g = [&](auto x) { decltype(x) r = decltype(x)(0.0); for (size_t i = c.size(); i-- > 0;) r = r * x + A * c[i]; return r; }; auto f1 = [&](dual x) { return g(x); }; auto f2 = [&](dual2 x) { return g(x); }; P l = taylor::expand_linear(f1, x0), q = taylor::expand_quadratic(f2, x0); L a = A * ev(c, x0), b = A * dv(c, x0), d = A * ddv(c, x0); double s = A * 1e-12 * std::pow(1 + std::fabs(x0), 3) * 20; for (real h : {-1., 0., 0.25, 2.}) { NEAR("linear", l(x0 + h), a + b * h, 0, s); NEAR("quadratic", q(x0 + h), a + b * h + d * h * h / 2, 0, s); } } });
}
// ---- ordinary differential equations --------------------------------------------------------------------
// reference flow: classical RK4 in long double with fine substeps on the pair (x1, x2)
struct Sys { real c[6]; };   // x' = c0 + c1 t + c2 y ; y' = c3 + c4 x + c5 x y t
template<class T> static void rhs(const Sys& s, T t, T x, T y, T& dx, T& dy) { dx = s.c[0] + s.c[1] * t + s.c[2] * y; dy = s.c[3] + s.c[4] * x + s.c[5] * x * y * t; }
static void flow(const Sys& s, L t, L h, L& x, L& y) { int N = 64; L k = h / N; for (int i = 0; i < N; ++i) { L a, b, c, d, e, f, g, q; rhs<L>(s, t, x, y, a, b); rhs<L>(s, t + k / 2, x + a * k / 2, y + b * k / 2, c, d); rhs<L>(s, t + k / 2, x + c * k / 2, y + d * k / 2, e, f); rhs<L>(s, t + k, x + e * k, y + f * k, g, q); x += k * (a + 2 * c + 2 * e + g) / 6; y += k * (b + 2 * d + 2 * f + q) / 6; t += k; } }
typedef vec<real, 2> V2;
static double err2(const V2& a, L x, L y) { return std::max(std::fabs(a[0] - (double) x), std::fabs(a[1] - (double) y)); }
static std::vector<Sys> systems() { std::vector<Sys> r; words<real>({-1, 0, 1.5}, 6, [&](const V& w) { if (!vf::thorough()) { int nz = 0; for (real x : w) nz += x != 0; if (nz > 4) return; } Sys s; for (int i = 0; i < 6; ++i) s.c[i] = w[i]; r.push_back(s); }); return r; }
static void peak(const char* n, double e) { static std::map<std::string, double> m; double& x = m[n]; if (e > x) { x = e; vf::S().counters[std::string("max local error constant x1000 of ") + n] = (uint64_t) (e * 1000); } }
SECTION(ode_steps) {
	typedef std::function<V2(real, const V2&)> F;
	struct M { const char* n; int p; std::function<V2(F, const V2&, real, real)> step; };
	std::vector<M> ms = {{"euler", 1, [](F f, const V2& x, real t, real h) { return ode::step_euler<V2>(f, x, t, h); }}, {"midpoint", 2, [](F f, const V2& x, real t, real h) { return ode::step_midpoint<V2>(f, x, t, h); }}, {"heun", 2, [](F f, const V2& x, real t, real h) { return ode::step_heun<V2>(f, x, t, h); }}, {"rk2", 2, [](F f, const V2& x, real t, real h) { return ode::step_rk2<V2>(f, x, t, h); }}, {"rk4", 4, [](F f, const V2& x, real t, real h) { return ode::step_rk4<V2>(f, x, t, h); }}, {"k38", 4, [](F f, const V2& x, real t, real h) { return ode::step_k38<V2>(f, x, t, h); }}};
	for (auto& s : systems()) for (real t0 : {0., 0.75}) for (int iv = 0; iv < 2; ++iv) {
		if (!vf::begin("x'=%g%+gt%+gy y'=%g%+gx%+gxyt from t=%g x=%d", s.c[0], s.c[1], s.c[2], s.c[3], s.c[4], s.c[5], t0, iv)) continue;
		F f = [&](real t, const V2& v) { V2 r; rhs<real>(s, t, v[0], v[1], r[0], r[1]); return r; };
		const V2 x0 = iv ? V2({-0.5, 2}) : V2({1, 0.25}); errno = 0;
		// local error bounded by C h^(p+1) with one constant per method for all systems; a method of lower order
		// exceeds it by a factor ~1/h as soon as one system excites the wrong elementary differential
		for (auto& m : ms) { real h = m.p == 4 ? 1.0 / 64 : 1.0 / 1024; L ax = x0[0], ay = x0[1]; flow(s, t0, h, ax, ay); double e = err2(m.step(f, x0, t0, h), ax, ay) / std::pow(h, m.p + 1), C = m.p == 1 ? 40 : m.p == 2 ? 25 : 10; peak(m.n, e);
			CHECKF(std::string(m.n) + " order", e <= C, "local error is %g h^%d", e, m.p + 1);
			V2 z = m.step(f, x0, t0, 0.0); CHECKF(std::string(m.n) + " null step", err2(z, x0[0], x0[1]) == 0, "moved"); vf::state(vf::mix(vf::hd((float) e), m.p)); }
		// multistep methods started from the exact flow
		{ real h = 1.0 / 128; const V2 y0 = x0; L X = x0[0], Y = x0[1]; flow(s, t0, h, X, Y); V2 y1({(real) X, (real) Y}); L X2 = X, Y2 = Y; flow(s, t0 + h, h, X2, Y2); V2 y2({(real) X2, (real) Y2}); L X3 = X2, Y3 = Y2; flow(s, t0 + 2 * h, h, X3, Y3);
			double d2 = err2(ode::step_adams2<V2>(f, y0, t0, y1, t0 + h, h), X2, Y2) / std::pow(h, 3), d3 = err2(ode::step_adams3<V2>(f, y0, t0, y1, t0 + h, y2, t0 + 2 * h, h), X3, Y3) / std::pow(h, 4); peak("adams2", d2); peak("adams3", d3);
			CHECKF("adams2 order", d2 <= 80, "local error is %g h^3", d2); CHECKF("adams3 order", d3 <= 400, "local error is %g h^4", d3); }
		CHECK("no error", errno == 0);
	}
	// exactness classes: x' = t^k and x' = lambda x
	typedef std::function<real(real, const real&)> G;
	for (int k = 0; k <= 3; ++k) for (real t0 : {-1., 0., 0.5}) for (real h : {0.25, 1.}) if (vf::begin("x'=t^%d from %g step %g", k, t0, h)) { G f = [&](real t, const real& x) -> real { return k == 0 ? 1 : std::pow(t, k); }; L w = (powl(t0 + h, k + 1) - powl(t0, k + 1)) / (k + 1) + 2; if (k <= 0) NEAR("euler", (ode::step_euler<real>(f, 2., t0, h)), w, 1e-12, 1e-12); if (k <= 1) { NEAR("midpoint", (ode::step_midpoint<real>(f, 2., t0, h)), w, 1e-12, 1e-12); NEAR("heun", (ode::step_heun<real>(f, 2., t0, h)), w, 1e-12, 1e-12); NEAR("rk2", (ode::step_rk2<real>(f, 2., t0, h)), w, 1e-12, 1e-12); } NEAR("rk4", (ode::step_rk4<real>(f, 2., t0, h)), w, 1e-12, 1e-12); NEAR("k38", (ode::step_k38<real>(f, 2., t0, h)), w, 1e-12, 1e-12);
		L w2 = (powl(t0 + 2 * h, k + 1) - powl(t0 + h, k + 1)) / (k + 1) + w, w3 = (powl(t0 + 3 * h, k + 1) - powl(t0 + 2 * h, k + 1)) / (k + 1) + w2; if (k <= 1) NEAR("adams2", (ode::step_adams2<real>(f, 2., t0, (real) w, t0 + h, h)), w2, 1e-12, 1e-12); if (k <= 2) NEAR("adams3", (ode::step_adams3<real>(f, 2., t0, (real) w, t0 + h, (real) w2, t0 + 2 * h, h)), w3, 1e-12, 1e-12); }
}
SECTION(ode_solve) {
	// every (interval, step) pair: the grid of times covers the interval exactly, each row is one step of the method
	V st = {0.1, 0.25, 0.3, 0.5, 1, 0.7, 0.05}; V t0s = {-1, 0, 0.3, 2}, len = {0, 0.05, 0.1, 0.25, 0.3, 0.6, 0.7, 1, 1.05, 2.1, 3};
	for (real t0 : t0s) for (real ln : len) for (real h : st) for (int dyn = 0; dyn < 2; ++dyn) {
		if (!vf::begin("solve from %g length %g step %g %s", t0, ln, h, dyn ? "vec<real>" : "vec2")) continue;
		real tf = t0 + ln; errno = 0; auto chk = [&](auto sol, auto step, const char* nm) {
			size_t n = sol.t.size(); CHECKF(nm, n >= 1 && sol.x.size() == n, "%zu times %zu rows", n, (size_t) sol.x.size()); if (n < 1 || sol.x.size() != n) return; EQ("starts at t0", sol.t[0], t0); NEAR("ends at tf", sol.t[n - 1], tf, 0, 1e-9); EQ("initial condition", sol.x[0][0], 1.0); EQ("initial condition", sol.x[0][1], -0.5);
			size_t need = (size_t) std::ceil(ln / h - 1e-9); auto dy = [](real v) { return v * 64 == std::floor(v * 64); }; bool ex = dy(t0) && dy(ln) && dy(h) && std::fmod(ln, h) == 0; CHECKF("number of steps", n - 1 == need || (!ex && n - 1 == need + 1), "%zu steps for %zu", n - 1, need);
			for (size_t i = 1; i < n; ++i) { real d = sol.t[i] - sol.t[i - 1]; CHECKF("time step", d > -1e-9 && d < h + 1e-9, "step %g", d); if (i + 1 < n) NEAR("full steps", d, h, 0, 1e-9); auto y = step(sol.x[i - 1], sol.t[i - 1], d); for (int k = 0; k < 2; ++k) NEAR(nm, sol.x[i][k], y[k], 1e-9, 1e-9); } };
		if (dyn) { typedef vec<real> W; typedef std::function<W(real, const W&)> F; F f = [](real t, const W& v) { W r(2); r[0] = v[1] + t; r[1] = -v[0]; return r; }; W x0(2); x0[0] = 1; x0[1] = -0.5;
			chk(ode::solve_euler(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_euler<W>(f, x, t, d); }, "euler"); chk(ode::solve_rk4(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_rk4<W>(f, x, t, d); }, "rk4"); chk(ode::solve_k38(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_k38<W>(f, x, t, d); }, "k38"); }
		else { typedef V2 W; typedef std::function<W(real, const W&)> F; F f = [](real t, const W& v) { W r; r[0] = v[1] + t; r[1] = -v[0]; return r; }; W x0({1, -0.5});
			chk(ode::solve_euler(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_euler<W>(f, x, t, d); }, "euler"); chk(ode::solve_midpoint(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_midpoint<W>(f, x, t, d); }, "midpoint"); chk(ode::solve_heun(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_heun<W>(f, x, t, d); }, "heun"); chk(ode::solve_rk2(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_rk2<W>(f, x, t, d); }, "rk2"); chk(ode::solve_rk4(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_rk4<W>(f, x, t, d); }, "rk4"); chk(ode::solve_k38(f, x0, t0, tf, h), [&](const W& x, real t, real d) { return ode::step_k38<W>(f, x, t, d); }, "k38");
			if (ln >= 1 && h == 0.1) { L X = 1, Y = -0.5; Sys s = {{0, 1, 1, 0, -1, 0}}; int N = 40; for (int i = 0; i < N; ++i) flow(s, t0 + (L) ln * i / N, (L) ln / N, X, Y); auto r4 = ode::solve_rk4(f, x0, t0, tf, h); auto k8 = ode::solve_k38(f, x0, t0, tf, h); NEAR("rk4 solution", err2(r4.x[r4.x.size() - 1], X, Y), 0, 0, 1e-4); NEAR("k38 solution", err2(k8.x[k8.x.size() - 1], X, Y), 0, 0, 1e-4); auto hs = ode::solve_heun(f, x0, t0, tf, h); NEAR("heun solution", err2(hs.x[hs.x.size() - 1], X, Y), 0, 0, 5e-2);
				std::istringstream is(r4.to_string()); size_t rows = 0; real a, b, c; while (is >> a >> b >> c) { NEAR("printed", a, r4.t[rows], 1e-4, 1e-4); NEAR("printed", c, r4.x[rows][1], 1e-4, 1e-4); ++rows; } EQ("printed rows", rows, r4.t.size()); } }
		CHECK("no error", errno == 0);
	}
	for (real tf : {-0.5, -3.}) if (vf::begin("backward interval %g", tf)) { typedef std::function<V2(real, const V2&)> F; F f = [](real t, const V2& v) { return v; }; errno = 0; auto s = ode::solve_rk4(f, V2({1, 1}), 0, tf, 0.1); CHECK("refused", errno == EINVAL && s.t.size() >= 1 && s.t[0] != s.t[0]); typedef vec<real> W; std::function<W(real, const W&)> g = [](real t, const W& v) { return v; }; errno = 0; auto q = ode::solve_rk4(g, W({1, 1}), 0, tf, 0.1); CHECK("refused", errno == EINVAL && q.t.size() >= 1 && q.t[0] != q.t[0]); }
	for (real h : {0., -0.1}) if (vf::begin("step size %g", h)) { typedef std::function<V2(real, const V2&)> F; F f = [](real t, const V2& v) { return v; }; errno = 0; auto s = ode::solve_rk4(f, V2({1, 1}), 0, 1, h); CHECK("refused", errno == EINVAL && s.t.size() >= 1 && s.t[0] != s.t[0]); }
}
// one step equals its tableau, for nonlinear fields, steps of both signs and any size
template<class F> static L tableau(const F& f, L t, L x, L h, const std::vector<std::vector<L>>& A, const std::vector<L>& b) { std::vector<L> k; for (size_t i = 0; i < b.size(); ++i) { L c = 0, s = x; for (size_t j = 0; j < i; ++j) { c += A[i][j]; s += h * A[i][j] * k[j]; } k.push_back(f(t + c * h, s)); } for (size_t i = 0; i < b.size(); ++i) x += h * b[i] * k[i]; return x; }
SECTION(ode_tableau) {
	typedef std::vector<std::vector<L>> TA; const TA mid = {{}, {0.5L}}, heu = {{}, {1}}, r4 = {{}, {0.5L}, {0, 0.5L}, {0, 0, 1}}, k8 = {{}, {1 / 3.0L}, {-1 / 3.0L, 1}, {1, -1, 1}};
	for (int fn = 0; fn < 4; ++fn) for (real h : {0.1, -0.1, 0.3, -0.7, 0.01, 1e-4, -1e-4, 1.1}) for (real t : {0., 0.4, -2.3}) for (real x : {0.3, -1.2, 2.}) { if (!vf::begin("field %d at t=%g x=%g step %g", fn, t, x, h)) continue; auto g = [fn](L t, L x) -> L { return fn == 0 ? t * x - x * x + 1 : fn == 1 ? t * t * t - 2 * x : fn == 2 ? x * x * x / 4 + t : 1 / (1 + x * x) + t * t; };
		typedef std::function<real(real, const real&)> F1; F1 f = [&](real t, const real& x) -> real { return (real) g(t, x); }; typedef vec<real> W; typedef std::function<W(real, const W&)> FN; FN F = [&](real t, const W& v) { W r(v.size()); for (unsigned i = 0; i < v.size(); ++i) r[i] = (real) g(t, v[i]); return r; }; W X(3); X[0] = x; X[1] = -x; X[2] = x / 2; const W keep = X; errno = 0;
		auto cmp = [&](const char* nm, real one, const W& many, const TA& A, const std::vector<L>& b) { L w = tableau(g, t, x, h, A, b); double tol = 1e-14; NEAR(nm, one, w, 30 * tol, 30 * tol); EQ("size", (unsigned) many.size(), 3u); for (unsigned i = 0; i < 3 && i < many.size(); ++i) NEAR(nm, many[i], tableau(g, t, keep[i], h, A, b), 30 * tol, 30 * tol); };
		cmp("euler", ode::step_euler<real>(f, x, t, h), ode::step_euler<W>(F, X, t, h), {{}}, {1}); cmp("midpoint", ode::step_midpoint<real>(f, x, t, h), ode::step_midpoint<W>(F, X, t, h), mid, {0, 1}); cmp("rk2", ode::step_rk2<real>(f, x, t, h), ode::step_rk2<W>(F, X, t, h), mid, {0, 1}); cmp("heun", ode::step_heun<real>(f, x, t, h), ode::step_heun<W>(F, X, t, h), heu, {0.5L, 0.5L}); cmp("rk4", ode::step_rk4<real>(f, x, t, h), ode::step_rk4<W>(F, X, t, h), r4, {1 / 6.0L, 1 / 3.0L, 1 / 3.0L, 1 / 6.0L}); cmp("k38", ode::step_k38<real>(f, x, t, h), ode::step_k38<W>(F, X, t, h), k8, {0.125L, 0.375L, 0.375L, 0.125L});
		real x1 = x + 0.1, x2 = x - 0.2, t1 = t + 0.7 * h, t2 = t + 1.9 * h; NEAR("adams2", ode::step_adams2<real>(f, x, t, x1, t1, h), x1 + h * (1.5L * g(t1, x1) - 0.5L * g(t, x)), 3e-13, 3e-13); NEAR("adams3", ode::step_adams3<real>(f, x, t, x1, t1, x2, t2, h), x2 + h * (23.0L / 12 * g(t2, x2) - 4.0L / 3 * g(t1, x1) + 5.0L / 12 * g(t, x)), 3e-13, 3e-13);
		if (h > 0) { // a solver made of two full steps and a tail
			real tf = t + 2.5 * h; auto run = [&](const char* nm, auto sol, const TA& A, const std::vector<L>& b) { size_t n = sol.t.size(); CHECKF(nm, n >= 3 && sol.x.size() == n, "%zu rows", n); for (size_t i = 1; i < n; ++i) { if (!(std::abs(sol.x[i - 1]) < 1e3)) break; L w = tableau(g, sol.t[i - 1], sol.x[i - 1], (L) sol.t[i] - sol.t[i - 1], A, b); if (!(fabsl(w) < 1e6)) break; NEAR(nm, sol.x[i], w, 1e-12, 1e-12); } NEAR("ends at tf", sol.t[n - 1], tf, 1e-13, 1e-13); };
			run("solve euler", ode::solve_euler<real>(f, x, t, tf, h), {{}}, {1}); run("solve midpoint", ode::solve_midpoint<real>(f, x, t, tf, h), mid, {0, 1}); run("solve rk2", ode::solve_rk2<real>(f, x, t, tf, h), mid, {0, 1}); run("solve heun", ode::solve_heun<real>(f, x, t, tf, h), heu, {0.5L, 0.5L}); run("solve rk4", ode::solve_rk4<real>(f, x, t, tf, h), r4, {1 / 6.0L, 1 / 3.0L, 1 / 3.0L, 1 / 6.0L}); run("solve k38", ode::solve_k38<real>(f, x, t, tf, h), k8, {0.125L, 0.375L, 0.375L, 0.125L}); }
		CHECK("no error", errno == 0); for (int i = 0; i < 3; ++i) EQ("state kept", X[i], keep[i]); }
}
SECTION(ode_tails) { // last steps of every length, long runs
	typedef std::function<real(real, const real&)> F1; F1 f = [](real, const real&) -> real { return 1.0; };
	for (real t0 : {0., -1., 0.3}) for (real h : {0.1, 0.25, 1.0}) for (int n : {0, 1, 3, 10}) for (int k = 1; k <= 36; ++k) for (int c = 0; c < 2; ++c) { real tail = c ? h * (1 - std::ldexp(1.0, -k)) : h * std::ldexp(1.0, -k), tf = t0 + n * h + tail; if (!vf::begin("from %g, %d steps of %g and %g", t0, n, h, tail)) continue; errno = 0; auto s = ode::solve_euler<real>(f, 5.0, t0, tf, h); size_t m = s.t.size(); CHECK("rows", m >= 2 && s.x.size() == m); if (m < 2) continue; NEAR("ends at tf", s.t[m - 1], tf, 0, 2e-14 * (n + 4)); NEAR("covers the interval", s.x[m - 1], 5.0L + tf - t0, 0, 2e-14 * (n + 9)); for (size_t i = 1; i < m; ++i) { real d = s.t[i] - s.t[i - 1]; CHECKF("step", d > -1e-13 && d <= h * (1 + 1e-12) + 1e-13, "%g", d); } CHECK("no error", errno == 0); }
	for (unsigned n : {255u, 256u, 257u, 1000u, 32767u, 32769u, 65535u, 65536u, 65537u, 100000u}) if (vf::begin("%u steps", n)) { real h = 1.0 / 1024; errno = 0; auto s = ode::solve_euler<real>(f, 0.0, 0.0, n * h, h); EQ("rows", (unsigned) s.t.size(), n + 1); if (s.t.size() == n + 1) { EQ("ends at tf", s.t[n], n * h); EQ("value", s.x[n], n * h); } CHECK("no error", errno == 0); }
}
VF_MAIN
