// Root finding and optimization: every small polynomial, every bracket/guess of a set, every tolerance and limit.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "optimization/multi_roots.h"
#include "optimization/multi_extrema.h"
using namespace theoretica;
typedef long double L;
typedef std::vector<real> V;
typedef std::function<real(real)> F;
// polynomial s * prod (x - r_i) * (x^2 + 1)^q, evaluated in long double and rounded once
struct Pol {
	V r; real s; int q;
	template<typename T> T at(T x) const { T y = T(s); for (real t : r) y = y * (x - T(t)); for (int i = 0; i < q; ++i) y = y * (x * x + T(1)); return y; }
	real v(real x) const { return (real) at<L>(x); }
	// derivatives by the product rule on coefficients
	std::vector<L> co() const { std::vector<L> c{(L) s}; for (real t : r) { std::vector<L> d(c.size() + 1, 0); for (size_t i = 0; i < c.size(); ++i) { d[i + 1] += c[i]; d[i] -= c[i] * t; } c = d; } for (int k = 0; k < q; ++k) { std::vector<L> d(c.size() + 2, 0); for (size_t i = 0; i < c.size(); ++i) { d[i + 2] += c[i]; d[i] += c[i]; } c = d; } return c; }
};
static std::vector<L> dc(const std::vector<L>& c) { std::vector<L> d; for (size_t i = 1; i < c.size(); ++i) d.push_back(c[i] * i); if (d.empty()) d.push_back(0); return d; }
static real ev(const std::vector<L>& c, L x) { L r = 0; for (size_t i = c.size(); i-- > 0;) r = c[i] + x * r; return (real) r; }
static L nearest(const V& r, L x) { L b = INFINITY; for (real t : r) b = std::min(b, fabsl(x - t)); return b; }
static int mult(const V& r, real t) { return (int) std::count(r.begin(), r.end(), t); }
// ---- O01 ----------------------------------------------------------------------------------------
static void brackets(const Pol& p) {
	const real ends[] = {-1000000, -3, -1.25, -0.5, 0, 0.1, 1, 1.7, 4, 50000};
	for (real a : ends) for (real b : ends) {
		if (!vf::begin("bracket %s s=%g q=%d on [%g,%g]", show(p.r).c_str(), p.s, p.q, a, b)) continue;
		int outside = 0, calls = 0;
		auto f = [&](real x) { ++calls; if (!(x >= a && x <= b)) ++outside; return p.v(x); };
		bool ok = a <= b && p.v(a) * p.v(b) < 0;
		for (real tol : {1e-8, 1e-3, 0.1, 2.0}) {
			errno = 0; real x = root_bisect(f, a, b, tol); vf::state(vf::hd(x));
			if (!ok) { ISNAN("bisection refuses", x); CHECK("bisection refusal reported", errno == EINVAL); }
			else { CHECKF("bisection root", nearest(p.r, x) <= 2 * tol * 1.0001L + fabs(x) * 1e-15, "x=%.17g tol=%g", x, tol); CHECK("bisection inside", x >= a && x <= b); CHECK("no error", errno == 0); CHECK("bisection evaluates inside", !outside); }
			for (unsigned n0 : {0u, 1u, 2u, 3u}) for (real k1 : {0.0, 0.05}) {
				if (k1 && b - a > 10) continue;
				errno = 0; calls = 0; outside = 0; x = root_itp(f, a, b, tol, n0, k1);
				if (!ok) { ISNAN("ITP refuses", x); CHECK("ITP refusal reported", errno == EINVAL); continue; }
				if (n0 == 0 && x != x) { CHECK("ITP no convergence reported", errno != 0); vf::count("ITP with n0=0 out of steps"); continue; }
				CHECKF("ITP root", nearest(p.r, x) <= 2 * tol * 1.0001L + fabs(x) * 1e-15, "x=%.17g tol=%g n0=%u k1=%g", x, tol, n0, k1); CHECK("ITP inside", x >= a && x <= b); CHECK("no error", errno == 0); CHECK("ITP evaluates inside", !outside);
				CHECKF("ITP within the bisection budget", calls <= std::max(0.0, std::ceil(std::log2((b - a) / tol))) + n0 + 6, "%d calls", calls);
			}
		}
		if (ok) { errno = 0; real x = root_bisect(f, a, b); CHECK("default tolerance", nearest(p.r, x) <= 2.001e-8L + fabs(x) * 1e-15); x = root_itp(f, a, b); CHECK("default tolerance", nearest(p.r, x) <= 2.001e-8L + fabs(x) * 1e-15); CHECK("no error", errno == 0);
			unsigned need = (unsigned) std::max(0.0, std::ceil(std::log2((b - a) / 2e-6))); errno = 0; x = root_bisect(f, a, b, 1e-6, need + 2); CHECK("enough iterations", nearest(p.r, x) <= 2.001e-6L); CHECK("no error", errno == 0); if (need > 8) { errno = 0; x = root_bisect(f, a, b, 1e-6, need - 5); ISNAN("iteration limit", x); CHECK("iteration limit reported", errno != 0); } }
	}
}
static const V RA = {-1, 0, 0.3, 2};
SECTION(brk_single) { for (real s : {1., -2.}) for (int q : {0, 1}) words_upto<real>(RA, 0, 2, [&](const V& r) { brackets(Pol{r, s, q}); }); }
SECTION(brk_triple) { words<real>(RA, 3, [&](const V& r) { if (std::is_sorted(r.begin(), r.end())) brackets(Pol{r, 1, 0}); }); if (vf::thorough()) for (unsigned n = 4; n <= 5; ++n) words<real>(RA, n, [&](const V& r) { if (std::is_sorted(r.begin(), r.end())) brackets(Pol{r, -0.5, 0}); }); }
SECTION(brk_scaled) { for (real k : {1e-60, -1e-9, 1e9, -1e60}) words_upto<real>(RA, 1, 2, [&](const V& r) { brackets(Pol{r, k, 0}); }); for (real k : {1e-4, 64., 32768.}) words_upto<real>({-1, 0.3, 1.25}, 1, 2, [&](const V& r) { V t = r; for (auto& x : t) x *= k; brackets(Pol{t, 1, 0}); }); }
SECTION(brk_steps) { // discontinuous and non-smooth functions: bracketing needs the sign only
	for (real j : {-2., -0.7, 0., 0.3, 1.1}) for (real lo : {-3., -0.01}) for (real hi : {0.02, 5.}) for (real s : {1., -1.}) { if (!vf::begin("step at %g: %g/%g", j, lo * s, hi * s)) continue;
		auto f = [&](real x) -> real { return x < j ? s * lo : s * hi; }; V r{j};
		for (real tol : {1e-8, 1e-3}) { errno = 0; real x = root_bisect(f, -4, 3, tol); CHECKF("bisection finds the jump", nearest(r, x) <= 2.001L * tol, "%g", x); x = root_itp(f, -4, 3, tol); CHECKF("ITP finds the jump", nearest(r, x) <= 2.001L * tol, "%g", x); CHECK("no error", errno == 0); } }
}
static void search(const Pol& p, real a, real b, unsigned n) {
	if (!vf::begin("roots of %s s=%g q=%d on [%g,%g] in %u", show(p.r).c_str(), p.s, p.q, a, b, n)) return;
	F f = [&](real x) { return p.v(x); }; errno = 0; std::vector<vec2> iv = find_root_intervals(f, a, b, n);
	real dx = (b - a) / n; size_t k = 0;
	for (unsigned i = 0; i < n; ++i) { real x = a + i * dx, y = a + (i + 1) * dx; real fx = p.v(x), fy = p.v(y); if (std::fabs(fx) > 1e-9 && std::fabs(fy) > 1e-9) { bool here = k < iv.size() && std::fabs(iv[k][0] - x) < 1e-9 && std::fabs(iv[k][1] - y) < 1e-9; CHECKF("interval listed iff the sign changes", here == (fx * fy < 0), "cell %u", i); if (here) ++k; } else { if (k < iv.size() && std::fabs(iv[k][0] - x) < 1e-9) ++k; } }
	EQ("only cells are listed", k, iv.size());
	for (real tol : {1e-8, 1e-4}) {
		std::vector<real> z = roots(f, a, b, tol, n);
		for (real x : z) { CHECKF("every value is a root", nearest(p.r, x) <= 2.001L * tol + 1e-7L * (mult(p.r, 0) > 1), "%.17g", x); CHECK("inside", x >= a - 1e-9 && x <= b + 1e-9); }
		for (size_t i = 1; i < z.size(); ++i) CHECKF("each root once, in order", z[i] > z[i - 1] + 1e-9 || (z[i] > z[i-1] && tol > 1e-5), "%.17g %.17g", z[i - 1], z[i]);
		for (real t : p.r) {
			if (t < a || t > b) continue;
			int cell = (int) std::floor((t - a) / dx), cnt = 0; bool ong = false; for (unsigned i = 0; i <= n; ++i) if (a + i * dx == t) ong = true;
			bool edge = std::fabs((t - a) / dx - std::round((t - a) / dx)) < 1e-6; if (edge && !ong) { if (mult(p.r, t) % 2 == 0 || t == a || t == b || std::fabs(t - a) < 1e-6 || std::fabs(t - b) < 1e-6) continue; bool alone = true; for (real u : p.r) if (u != t && std::fabs(u - t) < 1.5 * dx) alone = false; if (!alone) continue; CHECKF("root next to a grid point found", [&] { for (real x : z) if (std::fabs(x - t) <= 2.001 * tol) return true; return false; }(), "%g", t); continue; }
			if (!ong) { if (mult(p.r, t) % 2 == 0) continue; for (real u : p.r) { real c = (u - a) / dx; if (std::fabs(c - std::round(c)) < 1e-6 ? (std::fabs(c - cell) < 1e-6 || std::fabs(c - cell - 1) < 1e-6) : (int) std::floor(c) == cell) if (u != t) cnt = 99; } if (cnt) continue; }
			int hits = 0; for (real x : z) if (std::fabs(x - t) <= 2.001 * tol) ++hits; CHECKF("root found exactly once", hits == 1, "%g found %d times", t, hits);
		}
		vf::state(vf::mix(z.size(), vf::hd(z.empty() ? 0 : z[0])));
	}
	CHECK("no error", errno == 0);
}
SECTION(brk_search) { for (unsigned n : {1u, 2u, 3u, 5u, 8u, 10u}) for (auto& v : std::vector<std::pair<real, real>>{{-2, 2}, {-1.37, 2.9}, {0, 5}}) words_upto<real>({-1, 0, 0.3, 0.5, 2}, 0, 3, [&](const V& r) { if (std::is_sorted(r.begin(), r.end())) for (real s : {1., -2.}) search(Pol{r, s, 0}, v.first, v.second, n); });
	if (vf::begin("zero steps")) { errno = 0; auto z = roots([](real x) { return x; }, -1., 1., 1e-8, 0); CHECK("zero steps refused", z.size() == 1 && z[0] != z[0] && errno != 0); } }
SECTION(brk_polynomial) {
	words_upto<real>({-3, -1.5, -0.5, 0, 1, 2.25}, 1, vf::thorough() ? 5 : 4, [&](const V& r) { for (size_t i = 1; i < r.size(); ++i) if (r[i] <= r[i - 1]) return; for (real s : {1., -0.5}) for (int tail : {0, 2}) { if (!vf::begin("roots of polynomial with roots %s scale %g tail %d", show(r).c_str(), s, tail)) continue;
		polynomial<real> p; for (L c : Pol{r, s, 0}.co()) p.coeff.push_back((real) c); for (int i = 0; i < tail; ++i) p.coeff.push_back(0); errno = 0; auto z = roots(p, 1e-8, 4001u); EQ("all simple roots found", z.size(), r.size()); for (size_t i = 0; i < std::min(z.size(), r.size()); ++i) NEAR("root", z[i], r[i], 0, 3e-8);
		auto w = roots(p); for (real x : w) CHECKF("default search returns roots only", nearest(r, x) <= 3e-8L, "%g", x); CHECK("no error", errno == 0); } });
	for (int n = 0; n < 3; ++n) if (vf::begin("constant polynomial with %d coefficients", n)) { polynomial<real> p; p.coeff.assign(n, 0); if (n) p.coeff[0] = 2; errno = 0; auto z = roots(p); CHECK("constant refused", z.size() == 1 && z[0] != z[0] && errno == EINVAL); }
}
// ---- O02 ----------------------------------------------------------------------------------------
static Pol G; static std::vector<L> C0, C1, C2;
static real f0(real x) { return ev(C0, x); }
static real f1(real x) { return ev(C1, x); }
static real f2(real x) { return ev(C2, x); }
static dual fd(dual x) { dual y(G.s, 0); for (real t : G.r) y = y * (x - dual(t, 0)); for (int i = 0; i < G.q; ++i) y = y * (x * x + dual(1, 0)); return y; }
static dual2 fd2(dual2 x) { dual2 y(G.s, 0, 0); for (real t : G.r) y = y * (x - dual2(t, 0, 0)); for (int i = 0; i < G.q; ++i) y = y * (x * x + dual2(1, 0, 0)); return y; }
static complex<> fz(complex<> z) { complex<> y(G.s, 0); for (real t : G.r) y = y * (z - complex<>(t, 0)); for (int i = 0; i < G.q; ++i) y = y * (z * z + complex<>(1, 0)); return y; }
static complex<> fz1(complex<> z) { complex<> r(0, 0); for (size_t i = C1.size(); i-- > 0;) r = r * z + complex<>((real) C1[i], 0); return r; }
static const int NM = 9;
static const char* MN[] = {"Newton", "Newton (dual)", "Halley", "Halley (dual2)", "Steffensen", "Chebyshev", "Chebyshev (dual2)", "Ostrowski", "Jarrat"};
static real call(int m, real g, real tol, unsigned it) {
	switch (m) {
	case 0: return root_newton(f0, f1, g, tol, it); case 1: return root_newton(fd, g, tol, it);
	case 2: return root_halley(f0, f1, f2, g, tol, it); case 3: return root_halley(fd2, g, tol, it);
	case 4: return root_steffensen(f0, g, tol, it); case 5: return root_chebyshev(f0, f1, f2, g, tol, it);
	case 6: return root_chebyshev(fd2, g, tol, it); case 7: return root_ostrowski(f0, f1, g, tol, it);
	default: return root_jarrat(f0, f1, g, tol, it); }
}
static real callf(int m, real g) { F a = f0, b = f1, c = f2; switch (m) { case 0: return root_newton(a, b, g); case 2: return root_halley(a, b, c, g); case 4: return root_steffensen(a, g); case 5: return root_chebyshev(a, b, c, g); case 7: return root_ostrowski(a, b, g); case 8: return root_jarrat(a, b, g); default: return call(m, g, OPTIMIZATION_TOL, 100); } }
static void open_(const Pol& p) {
	G = p; C0 = p.co(); C1 = dc(C0); C2 = dc(C1);
	for (real g : {-7., -2.5, -1., -0.4, 0., 0.3, 1., 1.9, 2., 3.5, 20.}) for (int m = 0; m < NM; ++m) {
		if (!vf::begin("%s of %s s=%g q=%d from %g", MN[m], show(p.r).c_str(), p.s, p.q, g)) continue;
		for (real tol : {1e-8, 1e-4}) { errno = 0; real x = call(m, g, tol, 100); vf::state(vf::hd(x)); if (std::isinf(x)) vf::fail("returned value is finite or NaN", "%g", x);
			if (x == x) { CHECKF("returned value is a root", std::fabs(p.v(x)) <= 2 * tol, "x=%.17g f=%g", x, p.v(x)); CHECK("no error", errno == 0); }
			else vf::count("no convergence");
			if (!p.r.size()) ISNAN("function without roots", x);
			if (mult(p.r, g) && (m == 1 || m == 3 || m == 6 || f0(g) == 0)) { CHECKF("exact root returned", x == g, "%.17g", x); } }
		real x = callf(m, g), y = call(m, g, OPTIMIZATION_TOL, 100); CHECKF("default arguments and callable kinds agree", (x != x && y != y) || x == y, "%g %g", x, y);
		if (g == 0) { real d = 0; switch (m) { case 0: d = root_newton(f0, f1); break; case 1: d = root_newton(fd); break; case 2: d = root_halley(f0, f1, f2); break; case 3: d = root_halley(fd2); break; case 4: d = root_steffensen(f0); break; case 5: d = root_chebyshev(f0, f1, f2); break; case 6: d = root_chebyshev(fd2); break; case 7: d = root_ostrowski(f0, f1); break; case 8: d = root_jarrat(f0, f1); break; }
			CHECKF("default guess is 0", (d != d && y != y) || d == y, "%g %g", d, y); }
		// near a simple root: converges to it, within the number of iterations its order allows
		for (real t : p.r) if (mult(p.r, t) == 1) for (real d : {-0.05, 0.05}) { bool iso = true; for (real u : p.r) if (u != t && std::fabs(u - t) < 0.6) iso = false; if (!iso || std::fabs(p.s) > 2) continue; if (g != 0 || (m == 4 && std::fabs(ev(C1, t)) > 4)) continue;
			static const unsigned lim[] = {5, 5, 4, 4, 14, 5, 5, 3, 3}; unsigned k = 0; real z = NAN; for (; k <= 100 && !(z == z); ++k) z = call(m, t + d, 1e-10, k); vf::S().counters[std::string("max iterations ") + MN[m]] = std::max<uint64_t>(vf::S().counters[std::string("max iterations ") + MN[m]], k);
			CHECKF("converges to the near root", std::fabs(z - t) <= 1e-9, "from %g: %.17g", t + d, z); CHECKF("with its order", k <= lim[m] + 1, "%u iterations from %g", k, t + d); }
		if (!mult(p.r, g)) { errno = 0; real z = call(m, g, 1e-12, 0); if (std::fabs(p.v(g)) > 1e-6) { ISNAN("iteration limit", z); CHECK("iteration limit reported", errno != 0); } }
	}
}
SECTION(open_real) { for (real s : {1., -2.}) for (int q : {0, 1}) words_upto<real>(RA, 0, 2, [&](const V& r) { open_(Pol{r, s, q}); }); }
SECTION(open_triple) { words<real>(RA, 3, [&](const V& r) { if (std::is_sorted(r.begin(), r.end())) open_(Pol{r, 1, 0}); }); if (vf::thorough()) words<real>({-1, 0, 0.3, 1, 2, 5}, 4, [&](const V& r) { if (std::is_sorted(r.begin(), r.end())) open_(Pol{r, 1, 0}); }); }
SECTION(open_scaled) { for (real k : {1e-3, -50., 1e5}) words_upto<real>(RA, 0, 2, [&](const V& r) { open_(Pol{r, k, 0}); }); words_upto<real>({-1, 0.3, 1.25}, 1, 2, [&](const V& r) { for (real k : {0.01, 16.}) { V t = r; for (auto& x : t) x *= k; open_(Pol{t, 1, 0}); } }); }
SECTION(open_complex) {
	for (int q : {0, 1}) words_upto<real>(RA, 0, 3, [&](const V& r) { if (!std::is_sorted(r.begin(), r.end())) return; G = Pol{r, 1, q}; C0 = G.co(); C1 = dc(C0); for (real x : {-2., 0., 0.3, 1.5}) for (real y : {-1.5, 0., 1., 2.}) { if (!vf::begin("complex Newton of %s q=%d from %g%+gi", show(r).c_str(), q, x, y)) continue; errno = 0;
		std::function<complex<>(complex<>)> a = fz, b = fz1; complex<> z = root_newton<real>(a, b, complex<>(x, y)), w = root_newton<real>(a, b, complex<>(x, y), 1e-4, 60); complex<> v = fz(z); vf::state(vf::mix(vf::hd(z.Re()), vf::hd(z.Im())));
		if (z.Re() == z.Re() && z.Im() == z.Im()) { CHECKF("complex root", v.sqr_norm() <= 1e-14, "%g%+gi", z.Re(), z.Im()); CHECK("no error", errno == 0); } else vf::count("no convergence");
		if (w.Re() == w.Re() && w.Im() == w.Im()) CHECK("complex root", fz(w).sqr_norm() <= 1e-7);
		if (r.empty() && !q) CHECK("no roots", z.Re() != z.Re() || z.Im() != z.Im());
		if (q && std::fabs(y) >= 1 && x == 0 && y == 1) CHECK("exact complex root", z.Re() == 0 && z.Im() == 1);
		if (q && r.empty() && y > 0) { NEAR("upper root", z.Re(), 0, 0, 1e-6); NEAR("upper root", z.Im(), 1, 0, 1e-6); } if (q && r.empty() && y < 0) NEAR("lower root", z.Im(), -1, 0, 1e-6);
		if (r.size() == 1 && !q) { NEAR("linear", z.Re(), r[0], 0, 1e-9); NEAR("linear", z.Im(), 0, 0, 1e-9); }
		errno = 0; complex<> k = root_newton<real>(a, b, complex<>(x, y), 1e-12, 0); if (fz(complex<>(x, y)).sqr_norm() > 1e-6) CHECK("iteration limit", k.Re() != k.Re() && k.Im() != k.Im() && errno != 0); } });
}
// ---- O03 ----------------------------------------------------------------------------------------
SECTION(ext_golden) {
	for (real m : {-3., -1., 0., 0.25, 2., 10.}) for (real a : {-5., -1., 0., 0.25, 1.5, 30.}) for (real b : {-5., -1., 0., 0.26, 4., 1000.}) for (int sh = 0; sh < 5; ++sh) for (real s : {1., 0.01, 40.}) {
		if (!vf::begin("unimodal shape %d at %g scale %g on [%g,%g]", sh, m, s, a, b)) continue; int out = 0;
		auto h = [&](real x) -> real { if (!(x >= a && x <= b)) ++out; L d = (L) x - m; return s * (sh == 0 ? fabsl(d) : sh == 1 ? d * d : sh == 2 ? d * d * d * d : sh == 3 ? (d < 0 ? -d : 3 * d) : sqrtl(fabsl(d))); }; auto g = [&](real x) -> real { return -h(x); };
		errno = 0; real x = minimize_goldensection(h, a, b), y = maximize_goldensection(g, a, b);
		if (a > b) { ISNAN("refused", x); ISNAN("refused", y); CHECK("reported", errno == EINVAL); continue; }
		real w = std::min(std::max(m, a), b), t = sh == 1 ? 1e-6 * (1 + std::fabs(m)) : sh == 2 ? 2e-3 * (1 + std::fabs(m)) : 3e-8; t = std::max(t, 1e-11 * (b - a));
		NEAR("minimum", x, w, 0, t); NEAR("maximum", y, w, 0, t); CHECK("no error", errno == 0); CHECK("evaluates inside", !out || (b - a) < 1e-9); }
}
SECTION(ext_newton) {
	words<real>({-2, 0, 1, 3}, 4, [&](const V& c) { if (c[3] == 0 && c[2] == 0) return; C0.assign(c.begin(), c.end()); C1 = dc(C0); C2 = dc(C1);
		for (real g : {-4., -1., -0.25, 0., 0.5, 3.}) { if (!vf::begin("extremum of %s from %g", show(c).c_str(), g)) continue; F a = f0, b = f1, d = f2;
			for (int k = 0; k < 2; ++k) { errno = 0; real x = k ? maximize_newton(f0, f1, f2, g) : minimize_newton(f0, f1, f2, g), y = k ? maximize_newton(a, b, d, g) : minimize_newton(a, b, d, g); CHECK("callable kinds", x == y || (x != x && y != y)); real sg = k ? -1 : 1;
				if (x == x) { CHECKF("stationary point", std::fabs(f1(x)) <= 2e-8, "%.17g", x); CHECKF("of the right kind", sg * f2(x) >= -1e-3, "%.17g curvature %g", x, f2(x)); CHECK("no error", errno == 0); } else vf::count("refused");
				if (g == 0) { real u = k ? maximize_newton(f0, f1, f2) : minimize_newton(f0, f1, f2); CHECK("default guess", u == x || (u != u && x != x)); }
				if (c[3] == 0) { real e = -c[1] / (2 * c[2]); if (sg * c[2] > 0) NEAR("parabola vertex", x, e, 0, 1e-9); else { ISNAN("vertex of the other kind", x); CHECK("reported", errno != 0); } } }
		} });
}
SECTION(ext_bisection) {
	for (real m : {-2., -0.3, 0., 1.25}) for (real a : {-6., -1., 0.5}) for (real b : {-0.5, 1., 7., -8.}) for (int sh = 0; sh < 3; ++sh) for (real s : {1., -1., 20., -0.1, 0.1, 0.3, -0.3}) { if (!vf::begin("stationary shape %d at %g scale %g on [%g,%g]", sh, m, s, a, b)) continue;
		F f = [=](real x) -> real { L d = (L) x - m; return s * (sh == 0 ? d * d : sh == 1 ? d * d + d * d * d * d : coshl(d)); }, D = [=](real x) -> real { L d = (L) x - m; return s * (sh == 0 ? 2 * d : sh == 1 ? 2 * d + 4 * d * d * d : sinhl(d)); };
		bool ok = a <= b && m > a && m < b; for (int k = 0; k < 2; ++k) { errno = 0; real x = k ? maximize_bisection(f, D, a, b) : minimize_bisection(f, D, a, b); if (ok && (s > 0) == !k) { NEAR("stationary point", x, m, 0, 3e-8); CHECK("no error", errno == 0); } else { ISNAN("refused", x); CHECK("reported", errno != 0); } } }
}
// ---- O04 ----------------------------------------------------------------------------------------
static real A[12], K[12], B, S4, SG;
template<unsigned N> static multidual<N> quad(vec<multidual<N>, N> x) { multidual<N> r(0.0); for (unsigned i = 0; i < N; ++i) { auto d = x[i] - multidual<N>(K[i]); r = r + d * d * multidual<N>(A[i]); if (S4 != 0) r = r + d * d * d * d * multidual<N>(S4); } if (N > 1) r = r + (x[0] - multidual<N>(K[0])) * (x[N - 1] - multidual<N>(K[N - 1])) * multidual<N>(B); return r * multidual<N>(SG); }
template<unsigned N> static void grad_case(const vec<real, N>& g) {
	std::string t; for (unsigned i = 0; i < N; ++i) t += " a=" + std::to_string(A[i]) + " c=" + std::to_string(K[i]) + " x0=" + std::to_string(g[i]);
	for (real sg : {1., -1.}) { if (!vf::begin("bowl%s cross %g quartic %g sign %g", t.c_str(), B, S4, sg)) continue; SG = sg;
		auto f = quad<N>; real lam = INFINITY; for (unsigned i = 0; i < N; ++i) lam = std::min(lam, 2 * A[i]); lam -= std::fabs(B);
		auto good = [&](const char* tag, const vec<real, N>& x, real tol) { real d = 0; for (unsigned i = 0; i < N; ++i) d += (x[i] - K[i]) * (x[i] - K[i]); CHECKF(tag, std::sqrt(d) <= 1.5 * tol / lam + 1e-9, "distance %g tol %g", std::sqrt(d), tol); vf::state(vf::mix(vf::hd(x[0]), N)); CHECK("no error", errno == 0); errno = 0; };
		errno = 0;
		for (real tol : {1e-3, 1e-6}) { if (sg > 0) { good("line search minimum", multi_minimize_lingrad<N>(f, g, tol), tol); good("minimum", multi_minimize<N>(f, g, tol), tol); for (real ga : {-0.005, -0.05}) good("fixed step minimum", multi_minimize_grad<N>(f, g, ga, tol), tol); }
			else { good("line search maximum", multi_maximize_lingrad<N>(f, g, tol), tol); good("maximum", multi_maximize<N>(f, g, tol), tol); for (real ga : {-0.005, -0.05}) good("fixed step maximum", multi_maximize_grad<N>(f, g, ga, tol), tol); } }
		if (sg > 0) { good("default minimum", multi_minimize<N>(f, g), 1e-3); good("default minimum", multi_minimize_grad<N>(f, g), 1e-3); good("default minimum", multi_minimize_lingrad<N>(f, g), 1e-3); } else { good("default maximum", multi_maximize<N>(f, g), 1e-3); good("default maximum", multi_maximize_grad<N>(f, g), 1e-3); good("default maximum", multi_maximize_lingrad<N>(f, g), 1e-3); }
		bool zero = true; for (unsigned i = 0; i < N; ++i) if (g[i] != 0) zero = false; if (zero) { if (sg > 0) { good("default guess", multi_minimize<N>(f), 1e-3); good("default guess", multi_minimize_grad<N>(f), 1e-3); } else { good("default guess", multi_maximize<N>(f), 1e-3); good("default guess", multi_maximize_grad<N>(f), 1e-3); } }
		for (real ga : {0., 0.1}) { errno = 0; auto x = multi_minimize_grad<N>(f, g, ga), y = multi_maximize_grad<N>(f, g, ga); for (unsigned i = 0; i < N; ++i) { ISNAN("non-negative step refused", x[i]); ISNAN("non-negative step refused", y[i]); } CHECK("reported", errno == EINVAL); }
		real far = 0; for (unsigned i = 0; i < N; ++i) far += std::fabs(g[i] - K[i]); if (far > 0.5) { errno = 0; auto x = sg > 0 ? multi_minimize_grad<N>(f, g, -0.001, 1e-6, 2) : multi_maximize_grad<N>(f, g, -0.001, 1e-6, 2); for (unsigned i = 0; i < N; ++i) ISNAN("iteration limit", x[i]); CHECK("iteration limit reported", errno != 0); }
	}
}
SECTION(multi_extrema) {
	for (real q : {0., 0.25}) words<real>({0.5, 2}, 2, [&](const V& a) { for (real b : {0., 0.4}) words<real>({-1, 0, 1.5}, 2, [&](const V& c) { words<real>({-2, 0, 1}, 2, [&](const V& g) { A[0] = a[0]; A[1] = a[1]; K[0] = c[0]; K[1] = c[1]; B = b; S4 = q; vec<real, 2> x; x[0] = g[0]; x[1] = g[1]; if (q == 0 || vf::thorough() || (c[0] == c[1])) grad_case<2>(x); }); }); });
	// the line search reports an exhausted iteration budget instead of a point (narrow valleys need many line searches)
	for (real a : {5., 20., 50.}) for (real b : {0., 1.}) for (real x : {10., -7.}) for (real sg : {1., -1.}) for (unsigned it : {1u, 2u, 3u}) if (vf::begin("valley 1:%g cross %g from %g sign %g limit %u", a, b, x, sg, it)) {
		A[0] = 1; A[1] = a; K[0] = K[1] = 0; B = b; S4 = 0; SG = sg; vec<real, 2> g; g[0] = x; g[1] = 1.5; errno = 0; auto r = sg > 0 ? multi_minimize_lingrad<2>(quad<2>, g, 1e-9, it) : multi_maximize_lingrad<2>(quad<2>, g, 1e-9, it); ISNAN("line search iteration limit", r[0]); ISNAN("line search iteration limit", r[1]); CHECK("iteration limit reported", errno != 0); }
	// the guess defaults to the origin: where the origin is the extremum, it is returned exactly
	for (real a : {0.5, 2.}) for (real b : {0., 0.4}) for (real sg : {1., -1.}) if (vf::begin("default guess at the extremum %g %g sign %g", a, b, sg)) { A[0] = 1; A[1] = a; K[0] = K[1] = 0; B = b; S4 = 0; SG = sg; errno = 0; auto f = quad<2>;
		for (auto r : {sg > 0 ? multi_minimize<2>(f) : multi_maximize<2>(f), sg > 0 ? multi_minimize_lingrad<2>(f) : multi_maximize_lingrad<2>(f), sg > 0 ? multi_minimize_grad<2>(f) : multi_maximize_grad<2>(f)}) CHECKF("default guess", r[0] == 0 && r[1] == 0, "(%g, %g)", r[0], r[1]); CHECK("no error", errno == 0); }
}
SECTION(multi_extrema3) { words<real>({0.5, 2}, 3, [&](const V& a) { words<real>({-1, 1.5}, 3, [&](const V& c) { for (real g : {0., 1., -2.}) { for (int i = 0; i < 3; ++i) { A[i] = a[i]; K[i] = c[i]; } B = 0.4; S4 = 0; vec<real, 3> x; x[0] = g; x[1] = -g; x[2] = g / 2; grad_case<3>(x); } }); }); }
static real M[144], R[12], Q2;
template<unsigned N> static autodiff::dvec_t<N> sys(autodiff::dvec_t<N> x) { autodiff::dvec_t<N> y; for (unsigned i = 0; i < N; ++i) { y[i] = multidual<N>(-R[i]); for (unsigned j = 0; j < N; ++j) y[i] = y[i] + x[j] * multidual<N>(M[i * N + j]); if (Q2 != 0) y[i] = y[i] + x[i] * x[(i + 1) % N] * multidual<N>(Q2); } return y; }
template<unsigned N> static void msys(const V& m, const V& r, real q, const vec<real, N>& g) {
	std::string gs; for (unsigned i = 0; i < N; ++i) gs += " " + std::to_string(g[i]);
	if (!vf::begin("system %s = %s quadratic %g from%s", show(m).c_str(), show(r).c_str(), q, gs.c_str())) return;
	for (unsigned i = 0; i < N * N; ++i) M[i] = m[i]; for (unsigned i = 0; i < N; ++i) R[i] = r[i]; Q2 = q;
	real det = N == 2 ? m[0] * m[3] - m[1] * m[2] : m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
	auto res = [&](const vec<real, N>& x) { L s = 0; for (unsigned i = 0; i < N; ++i) { L y = -r[i]; for (unsigned j = 0; j < N; ++j) y += (L) m[i * N + j] * x[j]; y += (L) q * x[i] * x[(i + 1) % N]; s += y * y; } return sqrtl(s); };
	for (real tol : {1e-3, 1e-9}) { errno = 0; vec<real, N> x = multiroot_newton<N>(sys<N>, g, tol); bool nn = false; for (unsigned i = 0; i < N; ++i) if (x[i] != x[i]) nn = true;
		if (nn) { CHECK("system with a solution solved", q != 0 || det == 0 || res(g) == 0); vf::count("no convergence"); } else { CHECKF("residual within tolerance", res(x) <= 2 * tol, "%Lg", res(x)); vf::state(vf::hd(x[0])); }
		if (q == 0 && det == 0 && !nn) CHECK("singular system only solved when consistent", res(x) <= 2 * tol); }
	bool zero = true; for (unsigned i = 0; i < N; ++i) if (g[i] != 0) zero = false;
	if (zero) { vec<real, N> x = multiroot_newton<N>(sys<N>), y = multiroot_newton<N>(sys<N>, g); for (unsigned i = 0; i < N; ++i) CHECK("default guess is 0", x[i] == y[i] || (x[i] != x[i] && y[i] != y[i])); }
	if (res(g) == 0) { vec<real, N> x = multiroot_newton<N>(sys<N>, g); for (unsigned i = 0; i < N; ++i) CHECK("exact guess kept", x[i] == g[i]); }
	else if (res(g) > 0.1) { errno = 0; vec<real, N> x = multiroot_newton<N>(sys<N>, g, 1e-6, 0); bool nn = true; for (unsigned i = 0; i < N; ++i) if (x[i] == x[i]) nn = false; CHECK("iteration limit", nn && errno != 0); }
}
SECTION(multi_roots2) { words<real>({-1, 0, 2}, 4, [&](const V& m) { words<real>({0, 3}, 2, [&](const V& r) { for (real q : {0., 0.5}) for (real a : {0., 1.}) for (real b : {0., -2.}) { vec<real, 2> g; g[0] = a; g[1] = b; msys<2>(m, r, q, g); } }); }); }
SECTION(multi_roots3) { words<real>(vf::thorough() ? V{-1, 0, 1} : V{0, 1}, 9, [&](const V& m) { V r{1, -2, 0}; for (real q : {0., 0.25}) { vec<real, 3> g; g[0] = 0.5; g[1] = 0; g[2] = -1; msys<3>(m, r, q, g); } }); }
// more variables, and systems in other units
template<unsigned N> static void many() {
	for (int k = 0; k < 2; ++k) { vec<real, N> g; for (unsigned i = 0; i < N; ++i) { A[i] = 0.5 + 0.25 * (i % 4); K[i] = (int) (i % 5) - 2; g[i] = k ? 0 : 1 + (real) (i % 3); } B = k ? 0 : 0.3; S4 = 0; grad_case<N>(g); }
	for (int k = 0; k < 2; ++k) for (int e : {-20, 0, 30}) { if (!vf::begin("system of %u equations, kind %d, right side times 2^%d", N, k, e)) continue; real s = std::ldexp(1.0, e); V x(N); for (unsigned i = 0; i < N; ++i) x[i] = ((int) ((i * 3) % 7) - 2) * s; for (unsigned i = 0; i < N; ++i) { L r = 0; for (unsigned j = 0; j < N; ++j) { M[i * N + j] = i == j ? (k ? 2 : 4 + i) : k ? (i + 1 == j || j + 1 == i ? -1 : 0) : ((i * 5 + j) % 3) / 4.0; r += (L) M[i * N + j] * x[j]; } R[i] = r; } Q2 = 0; vec<real, N> g; for (unsigned i = 0; i < N; ++i) g[i] = (int) (i % 2); errno = 0; auto z = multiroot_newton<N>(sys<N>, g, 1e-8 * std::max(1.0, s)); for (unsigned i = 0; i < N; ++i) NEAR("solution", z[i], x[i], 1e-6, 1e-7 * std::max(1.0, s)); CHECK("no error", errno == 0); vf::state(N); }
}
SECTION(multi_many) { many<1>(); many<2>(); many<3>(); many<4>(); many<5>(); many<6>(); many<8>(); many<9>(); many<12>(); }
// ---- deeper bounds --------------------------------------------------------------------------------
SECTION(brk_search_fine) { // finer grids, neighbouring roots, functions whose values are all small
	for (unsigned n : {20u, 41u, 64u, 100u, 255u, 256u, 257u, 300u}) for (auto& v : std::vector<std::pair<real, real>>{{-2, 2}, {-1.37, 2.9}}) words_upto<real>({-1, 0, 0.3, 0.5, 2}, 1, 2, [&](const V& r) { if (std::is_sorted(r.begin(), r.end())) search(Pol{r, 1, 0}, v.first, v.second, n); });
	for (real d : {0.5, 0.125, 1. / 1024, 1. / 8192}) for (real c : {0., 0.375, -1.}) for (unsigned n : {8u, 16u}) if (vf::begin("roots %g apart at %g, %u cells", d, c, n)) { // on the grid: an exact root at every inner grid point
		auto f = [&](real x) -> real { L y = 1; for (unsigned i = 0; i <= n; ++i) y *= ((L) x - ((L) c + (L) i * d)) / d; return (real) y; }; errno = 0; std::vector<real> z = roots(f, c, c + n * d, 1e-9 * d, n); EQ("every grid root once", z.size(), (size_t) n + 1); for (size_t i = 0; i < z.size() && i <= n; ++i) NEAR("grid root", z[i], (L) c + (L) i * d, 1e-15, 4e-9 * d); CHECK("no error", errno == 0); }
	for (real k : {1e-6, -1e-7, 1e-9}) words_upto<real>({-0.93, 0.27, 1.41}, 1, 2, [&](const V& r) { for (unsigned n : {3u, 7u, 10u}) for (real tol : {1e-4, 1e-6}) { if (!vf::begin("roots %s of a function of size %g, tolerance %g, %u cells", show(r).c_str(), k, tol, n)) continue; Pol p{r, k, 0}; auto f = [&](real x) { return p.v(x); }; errno = 0; std::vector<real> z = roots(f, -2., 2., tol, n); for (real x : z) CHECKF("every value is a root", nearest(r, x) <= 2.001L * tol, "%.17g", x); if (r.size() == 1) EQ("found", z.size(), (size_t) 1); CHECK("no error", errno == 0); } });
	words_upto<real>({-3, -1.5, -0.5, 1, 2.25}, 1, 4, [&](const V& r) { for (size_t i = 1; i < r.size(); ++i) if (r[i] <= r[i - 1]) return; for (unsigned n : {1u, 2u, 3u}) { if (!vf::begin("polynomial with roots %s searched in %u cells", show(r).c_str(), n)) continue; polynomial<real> p; for (L c : Pol{r, 1, 0}.co()) p.coeff.push_back((real) c); errno = 0; auto z = roots(p, 1e-8, n); CHECKF("at most one root per cell", z.size() <= n + 1, "%zu", z.size()); for (real x : z) CHECK("root", nearest(r, x) <= 3e-8L); if (n == 1 && r.size() % 2) EQ("one cell, odd degree", z.size(), (size_t) 1); CHECK("no error", errno == 0); } });
}
// one iteration is the method's own step: with a tolerance just above |f(guess)| a method takes exactly one
static L ostep(int m, L x) { auto f = [](L t) { L r = 0; for (size_t i = C0.size(); i-- > 0;) r = C0[i] + t * r; return r; }; auto d = [](L t) { L r = 0; for (size_t i = C1.size(); i-- > 0;) r = C1[i] + t * r; return r; }; auto d2 = [](L t) { L r = 0; for (size_t i = C2.size(); i-- > 0;) r = C2[i] + t * r; return r; };
	L y = f(x), u = y / d(x); switch (m) { case 0: case 1: return x - u; case 2: case 3: return x - 2 * y * d(x) / (2 * d(x) * d(x) - y * d2(x)); case 4: return x - y * y / (f(x + y) - y); case 5: case 6: return x - u - u * u * d2(x) / (2 * d(x)); case 7: { L v = f(x - u); return x - u - v / d(x) * (y / (y - 2 * v)); } default: return x - u / 2 + y / (d(x) - 3 * d(x - 2 * u / 3)); } }
SECTION(open_step) {
	for (real s : {1., -1., 0.25, -3.}) for (int q : {0, 1}) words_upto<real>({-1, 0.3, 2}, 1, 3, [&](const V& r) { if (!std::is_sorted(r.begin(), r.end())) return; G = Pol{r, s, q}; C0 = G.co(); C1 = dc(C0); C2 = dc(C1);
		for (real g : {-2.5, -1.2, -0.9, 0.1, 0.5, 1.7, 2.2, 4.}) for (int m = 0; m < NM; ++m) { real y = std::fabs(ev(C0, g)); L w = ostep(m, g), fw = 0; for (size_t i = C0.size(); i-- > 0;) fw = C0[i] + w * fw; if (!(fabsl(fw) < 0.9 * y) || !(fabsl(w) < 1e3)) continue; if (!vf::begin("one step of %s for %s s=%g q=%d from %g", MN[m], show(r).c_str(), s, q, g)) continue; errno = 0; real x = call(m, g, y * 1.000001, 50); NEAR("step", x, w, 1e-11, 1e-11); CHECK("no error", errno == 0); } });
}
SECTION(open_tolerance) { // multiple roots converge linearly: the requested tolerance decides where they stop, the requested limit whether
	for (int k : {2, 3, 4}) for (real t : {0., 0.5, -2.}) for (real s : {1., -2.}) for (real g : {-5., -0.25, 1., 6.}) for (int m = 0; m < NM; ++m) for (real tol : {1e-2, 1e-5, 1e-8, 1e-11, 1e-14, 1e-20}) { if (g == t) continue; if (!vf::begin("%s of %g (x-%g)^%d from %g to %g", MN[m], s, t, k, g, tol)) continue; G = Pol{V(k, t), s, 0}; C0 = G.co(); C1 = dc(C0); C2 = dc(C1);
		// evaluate through the factored form, which is accurate at the root
		F f = [&](real x) -> real { return (real) (s * powl((L) x - t, k)); }, d = [&](real x) -> real { return (real) (s * k * powl((L) x - t, k - 1)); }, d2 = [&](real x) -> real { return (real) (s * k * (k - 1) * powl((L) x - t, k - 2)); };
		for (unsigned it : {3u, 20u, 100u, 400u}) { errno = 0; real x; switch (m) { case 0: x = root_newton(f, d, g, tol, it); break; case 2: x = root_halley(f, d, d2, g, tol, it); break; case 4: x = root_steffensen(f, g, tol, it); break; case 5: x = root_chebyshev(f, d, d2, g, tol, it); break; case 7: x = root_ostrowski(f, d, g, tol, it); break; case 8: x = root_jarrat(f, d, g, tol, it); break; default: x = call(m, g, tol, it); }
			if (x == x) { CHECKF("within tolerance", fabsl(s * powl((L) x - t, k)) <= 1.001 * tol, "x=%.17g f=%Lg limit %u", x, s * powl((L) x - t, k), it); CHECK("no error", errno == 0); } else if (it == 400 && m == 0) vf::fail("Newton converges to a multiple root", "limit %u", it); else vf::count("no convergence"); vf::state(vf::hd(x)); } }
}
SECTION(ext_newton_quartic) { // stationary points of quartics; curvatures of every size
	words<real>({-2, -0.5, 1, 1.5}, 3, [&](const V& r) { if (!std::is_sorted(r.begin(), r.end())) return; for (real s : {1., -1., 0.05, -0.05}) for (real g : {-3., -1.1, -0.7, 0.2, 0.6, 0.9, 1.2, 1.3, 2.5}) { if (!vf::begin("quartic with stationary points %s scale %g from %g", show(r).c_str(), s, g)) continue; C1 = Pol{r, s, 0}.co(); C2 = dc(C1); C0.assign(1, 0); for (size_t i = 0; i < C1.size(); ++i) C0.push_back(C1[i] / (i + 1));
		errno = 0; real z = root_newton(f1, f2, g); for (int k = 0; k < 2; ++k) { errno = 0; real sg = k ? -1 : 1, x = k ? maximize_newton(f0, f1, f2, g) : minimize_newton(f0, f1, f2, g); real cur = f2(z);
			if (z == z && sg * cur > 1e-3) { CHECKF("the extremum Newton's iteration reaches", x == z, "%.17g instead of %.17g", x, z); CHECK("no error", errno == 0); } else if (z != z || sg * cur < -1e-3) { ISNAN("not an extremum of the requested kind", x); CHECK("reported", errno != 0); } } } });
	for (real m : {-2., 0., 3.}) for (int e = -20; e <= 20; e += 4) for (real s : {1., -1.}) for (real g : {-1., 0.5, 4.}) { if (!vf::begin("parabola at %g with curvature %g 2^%d from %g", m, s, e, g)) continue; real a = s * std::ldexp(1.0, e); C0 = {(L) a * m * m, -2 * (L) a * m, a}; C1 = dc(C0); C2 = dc(C1); for (int k = 0; k < 2; ++k) { errno = 0; real x = k ? maximize_newton(f0, f1, f2, g) : minimize_newton(f0, f1, f2, g); if ((s > 0) == !k) { NEAR("vertex", x, m, 0, 1e-9); CHECK("no error", errno == 0); } else { ISNAN("vertex of the other kind", x); CHECK("reported", errno != 0); } } }
}
SECTION(ext_bisection_waves) { // the slope of the derivative changes sign inside the interval
	for (int sh = 0; sh < 4; ++sh) for (real m : {-2., 0., 1.25}) for (real l : {0.3, 1.9, 2.8}) for (real r : {0.4, 2.1, 3.}) for (real s : {1., -1., 1e-3, -1e-3, 50., -50.}) { if (!vf::begin("wave %d at %g scale %g on [-%g,+%g]", sh, m, s, l, r)) continue; F D = [=](real x) -> real { L d = (L) x - m; return s * (sh == 0 ? sinl(d) : sh == 1 ? d * expl(-d * d) : sh == 2 ? d / (1 + d * d) : tanhl(d)); }, f = [=](real x) -> real { L d = (L) x - m; return s * (sh == 0 ? -cosl(d) : sh == 1 ? -expl(-d * d) / 2 : sh == 2 ? logl(1 + d * d) / 2 : logl(coshl(d))); };
		for (int k = 0; k < 2; ++k) { errno = 0; real x = k ? maximize_bisection(f, D, m - l, m + r) : minimize_bisection(f, D, m - l, m + r); if ((s > 0) == !k) { NEAR("extremum", x, m, 0, 3e-8); CHECK("no error", errno == 0); } else { ISNAN("extremum of the other kind", x); CHECK("reported", errno != 0); } } }
}
template<unsigned N> static multidual<N> wells(vec<multidual<N>, N> x) { multidual<N> r(0.0); for (unsigned i = 0; i < N; ++i) { auto d = x[i] * x[i] - multidual<N>(1.0); r = r + d * d * multidual<N>(0.125); } return r * multidual<N>(SG); }
template<unsigned N> static void wells_all() { // several extrema: the one at the guess is returned, a nearby one is reached
	words<real>({-1, 1}, N, [&](const V& c) { for (real sg : {1., -1.}) { if (!vf::begin("wells at %s sign %g", show(c).c_str(), sg)) continue; SG = sg; auto f = wells<N>; vec<real, N> g; for (unsigned i = 0; i < N; ++i) g[i] = c[i]; errno = 0; for (int k = 0; k < 3; ++k) { auto x = sg > 0 ? (k == 0 ? multi_minimize<N>(f, g) : k == 1 ? multi_minimize_lingrad<N>(f, g) : multi_minimize_grad<N>(f, g)) : (k == 0 ? multi_maximize<N>(f, g) : k == 1 ? multi_maximize_lingrad<N>(f, g) : multi_maximize_grad<N>(f, g)); for (unsigned i = 0; i < N; ++i) CHECKF("an extremum given as the guess is returned", x[i] == c[i], "%g", x[i]); }
		for (unsigned i = 0; i < N; ++i) g[i] = c[i] * (i % 2 ? 1.25 : 0.8); for (int k = 0; k < 3; ++k) { auto x = sg > 0 ? (k == 0 ? multi_minimize<N>(f, g, 1e-6) : k == 1 ? multi_minimize_lingrad<N>(f, g, 1e-6) : multi_minimize_grad<N>(f, g, -0.1, 1e-6)) : (k == 0 ? multi_maximize<N>(f, g, 1e-6) : k == 1 ? multi_maximize_lingrad<N>(f, g, 1e-6) : multi_maximize_grad<N>(f, g, -0.1, 1e-6)); for (unsigned i = 0; i < N; ++i) NEAR("the extremum near the guess", x[i], c[i], 0, 1e-5); } CHECK("no error", errno == 0); } });
}
SECTION(multi_wells) { wells_all<1>(); wells_all<2>(); wells_all<3>(); wells_all<4>(); }
SECTION(multi_slow) { // more iterations than the default limit, when asked for
	for (real sg : {1., -1.}) { SG = sg; A[0] = 1e-5; A[1] = 1e-5; K[0] = K[1] = 0; B = S4 = 0; vec<real, 2> g; g[0] = 1; g[1] = -0.5; real tol = 2e-5 * 0.2; auto f = quad<2>;
		if (vf::begin("slow fixed step, sign %g", sg)) { errno = 0; auto x = sg > 0 ? multi_minimize_grad<2>(f, g, -1, tol, 400000) : multi_maximize_grad<2>(f, g, -1, tol, 400000); CHECKF("within tolerance", 2e-5 * std::hypot(x[0], x[1]) <= 1.01 * tol, "%g %g", x[0], x[1]); CHECK("no error", errno == 0); }
		if (vf::begin("slow line search, sign %g", sg)) { errno = 0; auto x = sg > 0 ? multi_minimize_lingrad<2>(f, g, tol, 400000) : multi_maximize_lingrad<2>(f, g, tol, 400000); CHECKF("within tolerance", 2e-5 * std::hypot(x[0], x[1]) <= 1.01 * tol, "%g %g", x[0], x[1]); CHECK("no error", errno == 0); } }
}
VF_MAIN
