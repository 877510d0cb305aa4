// Decompositions, linear systems, inverse, determinant and eigensolvers: every small integer matrix,
// against exact integer arithmetic (determinants, solvability) and residuals.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
typedef mat<real> X;
struct M { unsigned n; std::vector<double> v; double operator()(unsigned i, unsigned j) const { return v[i * n + j]; } double& operator()(unsigned i, unsigned j) { return v[i * n + j]; } };
static long idet(const std::vector<long>& a, unsigned n) {
	if (n == 1) return a[0];
	long s = 0;
	for (unsigned j = 0; j < n; ++j) { std::vector<long> m; for (unsigned i = 1; i < n; ++i) for (unsigned k = 0; k < n; ++k) if (k != j) m.push_back(a[i * n + k]); s += (j % 2 ? -1 : 1) * a[j] * idet(m, n - 1); }
	return s;
}
static long minor_(const M& a, unsigned k) { std::vector<long> m; for (unsigned i = 0; i < k; ++i) for (unsigned j = 0; j < k; ++j) m.push_back((long) a(i, j)); return idet(m, k); }
template<class T> static T mk(const M& a) { T x; x.resize(a.n, a.n); for (unsigned i = 0; i < a.n; ++i) for (unsigned j = 0; j < a.n; ++j) x(i, j) = a(i, j); return x; }
template<class V> static V mkv(const std::vector<double>& b) { V v; v.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) v[i] = b[i]; return v; }
template<class V> static bool finite_(const V& v) { for (unsigned i = 0; i < v.size(); ++i) if (!std::isfinite(v[i])) return false; return true; }
template<class T> static bool mfinite(const T& m) { for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) if (!std::isfinite(m(i, j))) return false; return true; }
static const double TOL = 1e-9;

template<class V> static void residual(const std::string& tag, const M& a, const V& x, const std::vector<double>& b) {
	++vf::S().checks;
	if (x.size() != a.n) { vf::fail(tag, "solution has %u elements", (unsigned) x.size()); return; }
	for (unsigned i = 0; i < a.n; ++i) { double s = 0, m = 1 + std::fabs(b[i]); for (unsigned j = 0; j < a.n; ++j) { s += a(i, j) * x[j]; m += std::fabs(a(i, j) * x[j]); }
		if (!(std::fabs(s - b[i]) <= TOL * m)) { vf::fail(tag, "row %u of A x is %.17g, expected %.17g", i, s, b[i]); return; } }
	uint64_t h = a.n; for (unsigned i = 0; i < a.n; ++i) h = vf::mix(h, vf::hd((float) x[i])); vf::state(h);
}
static void ones(const M& a, const std::vector<std::vector<double>>& bs, bool heavy) {
	const unsigned n = a.n; const X x = mk<X>(a);
	long d = minor_(a, n);
	errno = 0; NEAR("det", algebra::det(x), (double) d, 1e-9, 1e-9); CHECK("det errno", errno == 0);
	bool lu = true; for (unsigned k = 1; k < n; ++k) if (minor_(a, k) == 0) lu = false;
	// A = LU whenever the leading minors do not vanish
	if (lu) {
		X L, U; errno = 0; algebra::decompose_lu(x, L, U);
		X L2(n, n), U2(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) L2(i, j) = U2(i, j) = 99; algebra::decompose_lu(x, L2, U2);
		X C = x; algebra::decompose_lu_inplace(C);
		CHECK("lu errno", errno == 0);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
			double s = 0, t = 0, u = 0; for (unsigned k = 0; k < n; ++k) { s += L(i, k) * U(k, j); t += L2(i, k) * U2(k, j); }
			for (unsigned k = 0; k <= std::min(i, j); ++k) u += (k == i ? 1.0 : C(i, k)) * C(k, j);
			NEAR("L*U", s, a(i, j), TOL, TOL); NEAR("L*U into used matrices", t, a(i, j), TOL, TOL); NEAR("in-place L*U", u, a(i, j), TOL, TOL);
			if (j > i) { NEAR("L is lower", L(i, j), 0.0, 0, TOL); NEAR("L is lower (used)", L2(i, j), 0.0, 0, TOL); }
			if (j == i) { NEAR("L unit diagonal", L(i, j), 1.0, 0, TOL); NEAR("L unit diagonal", L2(i, j), 1.0, 0, TOL); }
			if (j < i) { NEAR("U is upper", U(i, j), 0.0, 0, 1e-8); NEAR("U is upper", U2(i, j), 0.0, 0, 1e-8); }
		}
		if (d != 0) for (auto& b : bs) {
			vec<real> v = mkv<vec<real>>(b); errno = 0;
			residual("solve_lu(L,U)", a, algebra::solve_lu(L, U, v), b);
			vec<real> w = v; algebra::solve_lu_inplace(C, w); residual("solve_lu_inplace", a, w, b); CHECK("solve_lu errno", errno == 0);
			for (unsigned i = 0; i < n; ++i) EQ("b unchanged", v[i], b[i]);
		}
	}
	// linear systems
	for (auto& b : bs) {
		vec<real> v = mkv<vec<real>>(b); errno = 0;
		vec<real> s = algebra::solve(x, v), t = algebra::solve_lu(x, v);
		int e = errno;
		if (d != 0) { residual("solve", a, s, b); residual("solve_lu", a, t, b); CHECK("solve errno", e == 0); }
		// a singular system has no trustworthy answer: error and NaN, or the loss of every digit
		else { bool f = finite_(s); double mx = 0; for (unsigned i = 0; i < n && f; ++i) mx = std::fmax(mx, std::fabs(s[i])); bool nz = false; for (double q : b) nz |= q != 0;
			CHECKF("solve singular", !f || e != 0 || mx > 1e10 || !nz || n > 2, "finite answer %g for a singular system, errno=%d", mx, e); }
		for (unsigned i = 0; i < n; ++i) { EQ("b unchanged", v[i], b[i]); for (unsigned j = 0; j < n; ++j) EQ("A unchanged", x(i, j), a(i, j)); }
	}
	// inverse
	errno = 0; X inv = algebra::inverse(x); int ei = errno; X w = x; w.invert(); X iv2(n, n); algebra::inverse(iv2, x);
	X inp = x; algebra::invert(inp);
	if (d != 0) {
		CHECK("inverse errno", ei == 0 && errno == 0);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
			double p = 0, q = 0; for (unsigned k = 0; k < n; ++k) { p += a(i, k) * inv(k, j); q += inv(i, k) * a(k, j); }
			NEAR("A*inv", p, i == j ? 1.0 : 0.0, 0, TOL); NEAR("inv*A", q, i == j ? 1.0 : 0.0, 0, TOL);
			NEAR("invert member", w(i, j), inv(i, j), TOL, TOL); NEAR("invert", inp(i, j), inv(i, j), TOL, TOL); NEAR("inverse dest", iv2(i, j), inv(i, j), TOL, TOL);
		}
	} else { bool f = mfinite(inv); double mx = 0; if (f) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) mx = std::fmax(mx, std::fabs(inv(i, j)));
		CHECKF("inverse singular", (!f && ei != 0) || mx > 1e10, "finite inverse (max %g) of a singular matrix, errno=%d", mx, ei); }
	// triangular systems
	bool lo = true, up = true, dg = true; for (unsigned i = 0; i < n; ++i) { if (a(i, i) == 0) dg = false; for (unsigned j = 0; j < n; ++j) { if (j > i && a(i, j) != 0) lo = false; if (j < i && a(i, j) != 0) up = false; } }
	for (auto& b : bs) {
		vec<real> v = mkv<vec<real>>(b);
		if (lo) { errno = 0; vec<real> s = algebra::solve_triangular_lower(x, v); if (dg) { residual("solve_lower", a, s, b); CHECK("solve_lower errno", errno == 0); } else { CHECK("solve_lower zero pivot", errno != 0 && !finite_(s)); } }
		if (up) { errno = 0; vec<real> s = algebra::solve_triangular_upper(x, v); if (dg) { residual("solve_upper", a, s, b); CHECK("solve_upper errno", errno == 0); } else { CHECK("solve_upper zero pivot", errno != 0 && !finite_(s)); } }
		errno = 0; vec<real> s = algebra::solve_triangular(x, v);
		if ((lo || up) && dg) { residual("solve_triangular", a, s, b); CHECK("solve_triangular errno", errno == 0); }
		else CHECK("solve_triangular refuses", errno != 0 && !finite_(s));
	}
	// Cholesky: exactly the symmetric positive definite matrices
	bool sym = true, pd = true; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (a(i, j) != a(j, i)) sym = false;
	for (unsigned k = 1; k <= n; ++k) if (minor_(a, k) <= 0) pd = false;
	errno = 0; X L = algebra::decompose_cholesky(x); int e = errno;
	if (sym && pd) {
		X P = x; algebra::decompose_cholesky_inplace(P); CHECK("cholesky errno", errno == 0);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
			double s = 0, t = 0; for (unsigned k = 0; k < n; ++k) { s += L(i, k) * L(j, k); t += P(i, k) * P(j, k); }
			NEAR("L*L^T", s, a(i, j), TOL, TOL); NEAR("in-place L*L^T", t, a(i, j), TOL, TOL);
			if (j > i) { EQ("cholesky lower", L(i, j), 0.0); EQ("cholesky in-place lower", P(i, j), 0.0); }
			if (j == i) CHECK("cholesky positive diagonal", L(i, i) > 0 && P(i, i) > 0);
		}
		for (auto& b : bs) { vec<real> v = mkv<vec<real>>(b); errno = 0; residual("solve_cholesky", a, algebra::solve_cholesky(L, v), b); CHECK("solve_cholesky errno", errno == 0); }
	} else if (!sym) { CHECK("cholesky refuses non symmetric", e == EINVAL && !mfinite(L)); X P = x; errno = 0; algebra::decompose_cholesky_inplace(P); CHECK("cholesky_inplace refuses non symmetric", errno == EINVAL && !mfinite(P)); }
	else { bool neg = false; for (unsigned k = 1; k <= n; ++k) if (minor_(a, k) < 0) { neg = true; break; } else if (minor_(a, k) == 0) break;
		if (neg) CHECK("cholesky refuses indefinite", e == EINVAL && !mfinite(L)); }
}
template<unsigned N> static void fixed(const M& a, const std::vector<double>& b) {
	typedef mat<real, N, N> F; const F x = mk<F>(a); long d = minor_(a, N);
	NEAR("fixed det", algebra::det(x), (double) d, 1e-9, 1e-9);
	if (d == 0) return;
	errno = 0; vec<real, N> v = mkv<vec<real, N>>(b); residual("fixed solve", a, algebra::solve(x, v), b);
	F inv = algebra::inverse(x), w = x; w.invert();
	for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) { double p = 0; for (unsigned k = 0; k < N; ++k) p += a(i, k) * inv(k, j); NEAR("fixed A*inv", p, i == j ? 1.0 : 0.0, 0, TOL); NEAR("fixed invert", w(i, j), inv(i, j), TOL, TOL); }
	CHECK("fixed errno", errno == 0);
}
static void all(unsigned n, const std::vector<double>& al, const std::vector<std::vector<double>>& bs, unsigned part = 0, unsigned parts = 1) {
	unsigned c = 0;
	words(al, n * n, [&](const std::vector<double>& v) {
		if (c++ % parts != part) return;
		M a{n, v}; if (!vf::begin("%ux%u %s", n, n, show(v).c_str())) return;
		ones(a, bs, true);
		if (n == 1) fixed<1>(a, bs[0]); if (n == 2) fixed<2>(a, bs[0]); if (n == 3) fixed<3>(a, bs[0]); if (n == 4) fixed<4>(a, bs[0]);
	});
}
SECTION(small_1_2) {
	all(1, {-2, 0, 1, 3}, {{1}, {-2}});
	all(2, {-3, -2, -1, 0, 1, 2, 4}, {{1, 0}, {0, 1}, {2, -3}});
}
SECTION(small_3a) { all(3, {-1, 0, 2}, {{1, 2, -3}}, 0, 2); }
SECTION(small_3b) { all(3, {-1, 0, 2}, {{1, 2, -3}}, 1, 2); }
SECTION(small_3c) { if (vf::thorough()) all(3, {-2, 0, 1, 3}, {{1, 2, -3}, {0, 0, 1}}); }
SECTION(small_4) { all(4, {0, 1}, {{1, 2, -3, 4}}, 0, vf::thorough() ? 1 : 7); }
// symmetric 3x3 and 4x4 (exercises Cholesky), and all matrices D + E with a dominant diagonal
SECTION(symmetric_) {
	words(std::vector<double>{-1, 0, 1}, 3, [&](const std::vector<double>& o) { words(std::vector<double>{-2, 1, 2, 5}, 3, [&](const std::vector<double>& d) {
		M a{3, {d[0], o[0], o[1], o[0], d[1], o[2], o[1], o[2], d[2]}}; if (vf::begin("sym %s", show(a.v).c_str())) { ones(a, {{1, -2, 3}}, true); fixed<3>(a, {1, -2, 3}); } }); });
	words(std::vector<double>{-1, 0, 2}, 6, [&](const std::vector<double>& o) { for (double k : {2., 5., 9.}) {
		M a{4, {k, o[0], o[1], o[2], o[0], k + 1, o[3], o[4], o[1], o[3], k, o[5], o[2], o[4], o[5], k + 2}}; if (vf::begin("sym %s", show(a.v).c_str())) { ones(a, {{1, -2, 3, 0}}, true); } } });
}
SECTION(larger_) {
	for (unsigned n = 5; n <= 12; ++n) for (unsigned s = 0; s < 24; ++s) {
		M a{n, std::vector<double>(n * n)}; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) a(i, j) = (double) ((i * (s + 3) + j * (2 * s + 5) + i * j) % 7) - 3 + (i == j ? (s % 2 ? 0.0 : 4.0 * n) : 0) + (((i + s) % n) == j ? 3.0 * n : 0);
		if (!vf::begin("structured n=%u s=%u", n, s)) continue;
		const X x = mk<X>(a); std::vector<double> b(n); for (unsigned i = 0; i < n; ++i) b[i] = (double) ((i * 5 + s) % 9) - 4;
		errno = 0; vec<real> v = mkv<vec<real>>(b), y = algebra::solve(x, v); X inv = algebra::inverse(x); CHECK("larger errno", errno == 0);
		residual("larger solve", a, y, b);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { double p = 0; for (unsigned k = 0; k < n; ++k) p += a(i, k) * inv(k, j); NEAR("larger A*inv", p, i == j ? 1.0 : 0.0, 0, 1e-7); }
		// symmetric positive definite A^T A + I
		X S = algebra::mat_transpose_mul(x, x); algebra::mat_shift_diagonal(S, 1.0); X L = algebra::decompose_cholesky(S);
		M q{n, std::vector<double>(n * n)}; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { q(i, j) = S(i, j); double p = 0; for (unsigned k = 0; k < n; ++k) p += L(i, k) * L(j, k); NEAR("larger L*L^T", p, q(i, j), 1e-9, 1e-7); }
		residual("larger solve_cholesky", q, algebra::solve_cholesky(L, v), b);
		X LL, UU; algebra::decompose_lu(S, LL, UU); residual("larger solve_lu", q, algebra::solve_lu(LL, UU, v), b);
	}
}
// complex systems
SECTION(complex_) {
	typedef complex<real> C; std::vector<C> al = {C(0, 0), C(1, 0), C(0, 1), C(-1, 2)};
	words(al, 4, [&](const std::vector<C>& v) {
		if (!vf::begin("complex (%g,%g)(%g,%g)(%g,%g)(%g,%g)", v[0].Re(), v[0].Im(), v[1].Re(), v[1].Im(), v[2].Re(), v[2].Im(), v[3].Re(), v[3].Im())) return;
		mat<C, 2, 2> m; m(0, 0) = v[0]; m(0, 1) = v[1]; m(1, 0) = v[2]; m(1, 1) = v[3];
		auto mul = [](C a, C b) { return C(a.Re() * b.Re() - a.Im() * b.Im(), a.Re() * b.Im() + a.Im() * b.Re()); };
		C d = mul(v[0], v[3]) - mul(v[1], v[2]);
		if (v[0].Re() == 0 && v[0].Im() == 0) return;
		mat<C, 2, 2> L, U; algebra::decompose_lu(m, L, U);
		for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { C s = mul(L(i, 0), U(0, j)) + mul(L(i, 1), U(1, j)); NEAR("complex LU re", s.Re(), m(i, j).Re(), TOL, TOL); NEAR("complex LU im", s.Im(), m(i, j).Im(), TOL, TOL); }
		mat<C, 2, 2> W = m; algebra::decompose_lu_inplace(W); C p = mul(W(0, 0), W(1, 1)); NEAR("complex LU det re", p.Re(), d.Re(), TOL, TOL); NEAR("complex LU det im", p.Im(), d.Im(), TOL, TOL);
		if (std::fabs(d.Re()) + std::fabs(d.Im()) > 0.5) {
			mat<C, 2, 2> I = algebra::inverse(m);
			for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { C s = mul(m(i, 0), I(0, j)) + mul(m(i, 1), I(1, j)); NEAR("complex inverse re", s.Re(), i == j ? 1.0 : 0.0, 0, TOL); NEAR("complex inverse im", s.Im(), 0.0, 0, TOL); }
		}
	});
}
// small pivots: the system stays solvable to full precision because rows are exchanged, whatever the magnitude of the leading entries
typedef __float128 Q;
static void pivots(const std::vector<real>& al, unsigned n, bool every, unsigned stride) {
	size_t cnt = 0;
	words(al, n * n, [&](const std::vector<real>& w) {
		if (!every && cnt++ % stride) return;
		Q d; if (n == 2) d = (Q) w[0] * w[3] - (Q) w[1] * w[2]; else d = (Q) w[0] * ((Q) w[4] * w[8] - (Q) w[5] * w[7]) - (Q) w[1] * ((Q) w[3] * w[8] - (Q) w[5] * w[6]) + (Q) w[2] * ((Q) w[3] * w[7] - (Q) w[4] * w[6]);
		double big = 0; for (double v : w) big = std::max(big, std::fabs(v));
		if (!(std::fabs((double) d) > 1e-13 * std::pow(big, n))) return;   // singular to working precision
		if (!vf::begin("small pivots %s", show(w).c_str())) return;
		X A(n, n); double na = 0; for (unsigned i = 0; i < n; ++i) { double r = 0; for (unsigned j = 0; j < n; ++j) { A(i, j) = w[i * n + j]; r += std::fabs(A(i, j)); } na = std::max(na, r); }
		Q perm = 0; if (n == 2) perm = (Q) std::fabs(w[0] * w[3]) + (Q) std::fabs(w[1] * w[2]); else for (int k = 0; k < 3; ++k) perm += (Q) std::fabs(w[k]) * ((Q) std::fabs(w[3 + (k + 1) % 3] * w[6 + (k + 2) % 3]) + (Q) std::fabs(w[3 + (k + 2) % 3] * w[6 + (k + 1) % 3]));
		errno = 0;
		// backward errors are relative to the largest entry: bounded by the entries, not by the terms of the determinant alone
		const double dt = algebra::det(A); CHECKF("det small pivots", std::fabs((double) (dt - d)) <= 1e-13 * std::pow(na, n), "got %.17g, expected %.17g", dt, (double) d);
		vec<real> b(n), x; for (unsigned i = 0; i < n; ++i) b[i] = 1.0 + i;
		for (int k = 0; k < 2; ++k) {
			x = k ? algebra::solve_lu(A, b) : algebra::solve(A, b); if (x.size() != n) { vf::fail("solve small pivots", "size"); return; }
			double nx = 0; for (unsigned i = 0; i < n; ++i) nx = std::max(nx, std::fabs(x[i]));
			if (!(nx < 1e300)) { if (fabs((double) d) > 1e-12) vf::fail("solve small pivots", "not finite"); continue; }
			for (unsigned i = 0; i < n; ++i) { Q r = -(Q) b[i]; for (unsigned j = 0; j < n; ++j) r += (Q) A(i, j) * x[j]; CHECKF("solve small pivots", std::fabs((double) r) <= 1e-14 * (na * nx + n), "residual %g in row %u", (double) r, i); }
		}
		X I = algebra::inverse(A); double ni = 0; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) ni = std::max(ni, std::fabs(I(i, j)));
		if (ni < 1e300) for (unsigned j = 0; j < n; ++j) {   // column j of the inverse solves A x = e_j
			for (unsigned i = 0; i < n; ++i) { Q r = i == j ? -1 : 0; for (unsigned k = 0; k < n; ++k) r += (Q) A(i, k) * I(k, j); CHECKF("inverse small pivots", std::fabs((double) r) <= 1e-13 * (na * ni + 1), "residual %g at %u, %u", (double) r, i, j); }
		}
		CHECK("small pivots errno", errno == 0); vf::state(vf::hd(dt));
	});
}
SECTION(pivots_) {
	for (int k : {10, 20, 26, 30, 36, 40, 46, 50, 60}) pivots({0, 1, -1, std::ldexp(1.0, -k), -3 * std::ldexp(1.0, -k)}, 2, true, 1);
	for (int k : {20, 34, 45}) pivots({0, 1, -1, std::ldexp(1.0, -k)}, 3, vf::thorough(), 7);
}
// the result written over the argument; systems whose factor has a vanishing diagonal element at any place
SECTION(alias_) {
	for (unsigned n = 1; n <= 9; ++n) for (int s = 0; s < 6; ++s) {
		if (!vf::begin("in place, order %u content %d", n, s)) continue;
		X A(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) A(i, j) = (double) ((i * 7 + j * 3 + s) % 11) - 4 + (i == j ? 20.0 : 0);
		const X I = algebra::inverse(A); X B = A, C = A, D = A; algebra::inverse(B, B); algebra::invert(C); D.invert(); X E(n, n); X& er = algebra::inverse(E, A); CHECK("returns its destination", &er == &E);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { EQ("inverse over its argument", B(i, j), I(i, j)); EQ("invert", C(i, j), I(i, j)); EQ("member invert", D(i, j), I(i, j)); EQ("inverse into", E(i, j), I(i, j)); }
		X L, U; algebra::decompose_lu(A, L, U); vec<real> b(n, 1.0), c = b; const vec<real> x = algebra::solve_lu(L, U, b); vec<real> y = algebra::solve(A, b); c = algebra::solve(A, c);
		for (unsigned i = 0; i < n; ++i) { NEAR("factors", x[i], y[i], 1e-10, 1e-12); EQ("right side reused", c[i], y[i]); }
		for (unsigned z = 0; z < n; ++z) {
			X V = U, W = L; V(z, z) = 0; W(z, z) = 0;
			auto refused = [&](const char* t, const vec<real>& r) { CHECKF(t, errno != 0, "vanishing diagonal element %u of %u accepted", z, n); CHECKF(t, r.size() == 0 || !finite_(r), "finite result with a vanishing diagonal element %u of %u", z, n); errno = 0; };
			errno = 0; refused("singular factor", algebra::solve_lu(L, V, b)); refused("singular upper", algebra::solve_triangular_upper(V, b)); refused("singular lower", algebra::solve_triangular_lower(W, b)); refused("singular triangular", algebra::solve_triangular(V, b)); refused("singular triangular", algebra::solve_triangular(W, b));
		}
	}
}
// positive definite matrices with small eigenvalues are accepted and factored
SECTION(cholesky_small) {
	for (unsigned n = 1; n <= 6; ++n) for (int k = 0; k <= 44; k += 2) for (int s = 0; s < 3; ++s) {
		if (!vf::begin("Cholesky factor of order %u with elements from 2^-%d, content %d", n, k, s)) continue;
		X L(n, n), A(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) L(i, j) = i == j ? (s == 0 ? std::ldexp(1.0, -k / 2) : s == 1 ? (i == n - 1 ? std::ldexp(1.0, -k / 2) : 1.0) : (i == 0 ? std::ldexp(1.0, -k / 2) : 1.0)) : s == 2 ? 0.0 : std::ldexp(((i * 3 + j) % 3) - 1.0, -k / 2);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { A(i, j) = 0; for (unsigned m = 0; m <= std::min(i, j); ++m) A(i, j) += L(i, m) * L(j, m); }
		if (s == 1 && k > 30) continue;   // the last pivot is lost to cancellation below this
		errno = 0; const X R = algebra::decompose_cholesky(A); X P = A; algebra::decompose_cholesky_inplace(P); CHECK("Cholesky errno", errno == 0);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { const double w = j <= i ? L(i, j) : 0; NEAR("Cholesky factor", R(i, j), w, 1e-7, 1e-12 * std::ldexp(1.0, -k / 2)); NEAR("Cholesky in place", P(i, j), w, 1e-7, 1e-12 * std::ldexp(1.0, -k / 2)); }
	}
}
SECTION(shapes) {
	for (unsigned r = 1; r <= 4; ++r) for (unsigned c = 1; c <= 4; ++c) for (unsigned k = 1; k <= 4; ++k) {
		if (r == c && k == r) continue;
		if (!vf::begin("non square or mismatched %ux%u with %u", r, c, k)) continue;
		X a(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) a(i, j) = (i == j ? 4 : 1.0 / (1 + i + j)); vec<real> b(k, 1.0);
		auto er = [&](const char* t) { CHECKF(t, errno == EINVAL, "errno=%d", errno); errno = 0; };
		errno = 0; algebra::solve(a, b); er("solve shape"); algebra::solve_triangular_lower(a, b); er("lower shape"); algebra::solve_triangular_upper(a, b); er("upper shape"); algebra::solve_cholesky(a, b); er("cholesky shape");
		algebra::solve_lu(a, a, b); er("solve_lu shape"); vec<real> w = b; algebra::solve_lu_inplace(a, w); er("inplace shape");
		if (r != c) { X L, U; algebra::decompose_lu(a, L, U); er("lu shape"); X q = a; algebra::decompose_lu_inplace(q); er("lu inplace shape"); algebra::decompose_cholesky(a); er("chol shape"); q = a; algebra::decompose_cholesky_inplace(q); er("chol inplace shape"); X i = algebra::inverse(a); er("inverse shape"); CHECK("inverse shape NaN", !mfinite(i)); q = a; algebra::invert(q); er("invert shape"); errno = 0; ISNAN("det shape", algebra::det(a)); er("det shape errno"); }
	}
}
// ---- eigensolvers: whatever is returned is an eigenpair; the dominant / smallest one when it is simple ----
static void jacobi(M a, std::vector<double>& ev, std::vector<std::vector<double>>& vec) {
	unsigned n = a.n; std::vector<std::vector<double>> U(n, std::vector<double>(n, 0)); for (unsigned i = 0; i < n; ++i) U[i][i] = 1;   // U[i]: i-th eigenvector
	for (int it = 0; it < 100; ++it) { double off = 0; for (unsigned p = 0; p < n; ++p) for (unsigned q = p + 1; q < n; ++q) off += a(p, q) * a(p, q); if (off < 1e-28) break;
		for (unsigned p = 0; p < n; ++p) for (unsigned q = p + 1; q < n; ++q) { if (a(p, q) == 0) continue; double t = std::atan2(2 * a(p, q), a(q, q) - a(p, p)) / 2, c = std::cos(t), s = std::sin(t);
			for (unsigned k = 0; k < n; ++k) { double x = U[p][k], y = U[q][k]; U[p][k] = c * x - s * y; U[q][k] = s * x + c * y; }
			for (unsigned k = 0; k < n; ++k) { double x = a(k, p), y = a(k, q); a(k, p) = c * x - s * y; a(k, q) = s * x + c * y; }
			for (unsigned k = 0; k < n; ++k) { double x = a(p, k), y = a(q, k); a(p, k) = c * x - s * y; a(q, k) = s * x + c * y; } } }
	std::vector<unsigned> ix; for (unsigned i = 0; i < n; ++i) ix.push_back(i);
	std::sort(ix.begin(), ix.end(), [&](unsigned x, unsigned y) { return std::fabs(a(x, x)) > std::fabs(a(y, y)); });
	ev.clear(); vec.clear(); for (unsigned i : ix) { ev.push_back(a(i, i)); vec.push_back(U[i]); }
}
template<class V> static void isvec(const char* tag, const M& a, double l, const V& v, double scale) {
	++vf::S().checks; double nn = 0; for (unsigned i = 0; i < a.n; ++i) nn += v[i] * v[i];
	if (!(std::fabs(nn - 1) < 1e-6)) { vf::fail(tag, "eigenvector is not normalised: %.17g", nn); return; }
	for (unsigned i = 0; i < a.n; ++i) { double s = 0; for (unsigned j = 0; j < a.n; ++j) s += a(i, j) * v[j]; if (!(std::fabs(s - l * v[i]) <= 1e-5 * scale)) { vf::fail(tag, "(A v - l v)[%u] = %g with l=%.17g", i, s - l * v[i], l); return; } }
}
static void eigen(const M& a) {
	unsigned n = a.n; const X x = mk<X>(a); std::vector<double> ev; std::vector<std::vector<double>> evec; jacobi(a, ev, evec);
	double scale = 1; for (double t : a.v) scale = std::fmax(scale, std::fabs(t));
	vec<real> st(n, 1.0); for (unsigned i = 0; i < n; ++i) st[i] = 1.0 + 0.37 * i + 0.11 * i * i;
	double dist; auto isval = [&](const char* tag, double l) { dist = 1e300; for (double e : ev) dist = std::fmin(dist, std::fabs(l - e)); CHECKF(tag, dist <= 1e-5 * scale, "%.17g is not an eigenvalue (distance %g)", l, dist); vf::state(vf::hd((float) l)); };
	int e; vec<real> v(n, 0.0);
	bool gap = std::fabs(ev[0]) > 1.3 * std::fabs(ev[1]) && std::fabs(ev[0]) > 0.1, gapinv = std::fabs(ev[n - 1]) > 0.2 && std::fabs(ev[n - 2]) > 1.3 * std::fabs(ev[n - 1]);
	bool lu = true; for (unsigned k = 1; k <= n; ++k) if (minor_(a, k) == 0) lu = false;
	auto conv = [&](const char* tag, double l) { if (l == l) { isval(tag, l); CHECKF(tag, e == 0, "value returned with errno=%d", e); } else CHECKF(tag, e != 0, "NaN without an error"); };
	errno = 0; double l = algebra::eigenvalue_power(x, st); e = errno; conv("eigenvalue_power", l); if (gap && l == l) { NEAR("eigenvalue_power dominant", l, ev[0], 1e-5, 1e-5); vf::count("dominant eigenvalue found"); }
	errno = 0; l = algebra::eigenpair_power(x, st, v); e = errno; conv("eigenpair_power", l); if (l == l) isvec("eigenpair_power vector", a, l, v, scale); if (gap && l == l) NEAR("eigenpair_power dominant", l, ev[0], 1e-5, 1e-5);
	errno = 0; l = algebra::eigenvalue_inverse(x, st); e = errno; conv("eigenvalue_inverse", l); if (gapinv && l == l) { NEAR("eigenvalue_inverse smallest", l, ev[n - 1], 1e-5, 1e-5); vf::count("smallest eigenvalue found"); }
	errno = 0; l = algebra::eigenpair_inverse(x, st, v); e = errno; conv("eigenpair_inverse", l); if (l == l) isvec("eigenpair_inverse vector", a, l, v, scale); if (gapinv && l == l) NEAR("eigenpair_inverse smallest", l, ev[n - 1], 1e-5, 1e-5);
	if (gap) CHECKF("power converges on a gap", !(algebra::eigenvalue_power(x, st) != algebra::eigenvalue_power(x, st)), "no convergence although |l1| > 1.3 |l2|");
	if (gapinv && lu) CHECKF("inverse converges on a gap", !(algebra::eigenvalue_inverse(x, st) != algebra::eigenvalue_inverse(x, st)), "no convergence although the smallest eigenvalue is isolated");
	if (gap) { l = algebra::eigenpair_power(x, st, v); CHECKF("pair power converges on a gap", l == l, "no convergence although |l1| > 1.3 |l2|"); }
	if (gapinv && lu) { l = algebra::eigenpair_inverse(x, st, v); CHECKF("pair inverse converges on a gap", l == l, "no convergence although the smallest eigenvalue is isolated"); }
	// near an isolated eigenvalue and its eigenvector: that eigenpair and no other
	for (unsigned i = 0; i < n; ++i) {
		double d = 1e300; for (unsigned j = 0; j < n; ++j) if (j != i) d = std::fmin(d, std::fabs(ev[j] - ev[i]));
		if (d < 0.5) continue;
		for (double f : {-0.1, 0.1}) {
			const double s0 = ev[i] + f * std::fmin(d, 2.0); vec<real> near(n, 0.0); double q = 0;
			for (unsigned k = 0; k < n; ++k) { near[k] = evec[i][k]; for (unsigned j = 0; j < n; ++j) if (j != i) near[k] += 0.04 * evec[j][k]; }
			for (unsigned k = 0; k < n; ++k) q += near[k] * near[k]; if (!(q > 0.9)) vf::fail("reference", "eigenvector %g", q);
			M sh = a; for (unsigned k = 0; k < n; ++k) sh(k, k) -= s0; bool ok = true; for (unsigned k = 1; k <= n; ++k) if (std::fabs(k == 1 ? sh(0, 0) : k == 2 ? sh(0, 0) * sh(1, 1) - sh(0, 1) * sh(1, 0) : sh(0, 0) * (sh(1, 1) * sh(2, 2) - sh(1, 2) * sh(2, 1)) - sh(0, 1) * (sh(1, 0) * sh(2, 2) - sh(1, 2) * sh(2, 0)) + sh(0, 2) * (sh(1, 0) * sh(2, 1) - sh(1, 1) * sh(2, 0))) < 1e-2) ok = false;
			auto close = [&](const char* tag, const vec<real>& w) { double t = 0; for (unsigned k = 0; k < n; ++k) t += w[k] * evec[i][k]; CHECKF(tag, std::fabs(std::fabs(t) - 1) < 1e-5, "not the eigenvector of %.9g (cosine %g)", ev[i], t); };
			errno = 0; l = algebra::eigenvalue_rayleigh(x, s0, near); e = errno; conv("eigenvalue_rayleigh near", l); if (l == l) { vf::count("Rayleigh near an eigenpair converged"); NEAR("eigenvalue_rayleigh stays", l, ev[i], 0, 1e-5 * scale); } else vf::count("Rayleigh near an eigenpair refused");
			errno = 0; double l2 = algebra::eigenpair_rayleigh(x, s0, near, v); e = errno; conv("eigenpair_rayleigh near", l2); if (l2 == l2) { NEAR("eigenpair_rayleigh stays", l2, ev[i], 0, 1e-5 * scale); close("eigenpair_rayleigh vector near", v); }
			CHECK("rayleigh forms agree", (l == l) == (l2 == l2));
			errno = 0; vec<real> w = algebra::eigenvector_inverse(x, s0, near); if (ok) CHECK("eigenvector_inverse converges near", finite_(w) && errno == 0); if (finite_(w)) close("eigenvector_inverse near", w);
		}
	}
	for (double s0 : {-2.7, 0.35, 3.1}) {
		errno = 0; l = algebra::eigenvalue_rayleigh(x, s0, st); e = errno; conv("eigenvalue_rayleigh", l);
		errno = 0; l = algebra::eigenpair_rayleigh(x, s0, st, v); e = errno; conv("eigenpair_rayleigh", l); if (l == l) isvec("eigenpair_rayleigh vector", a, l, v, scale);
		errno = 0; vec<real> w = algebra::eigenvector_inverse(x, s0, st); e = errno;
		if (finite_(w)) { double r = algebra::rayleigh_quotient(x, w); isval("eigenvector_inverse value", r); isvec("eigenvector_inverse", a, r, w, scale); } else CHECK("eigenvector_inverse reports", e != 0);
	}
	double num = 0, den = 0; for (unsigned i = 0; i < n; ++i) { den += st[i] * st[i]; for (unsigned j = 0; j < n; ++j) num += st[i] * a(i, j) * st[j]; } NEAR("rayleigh_quotient", algebra::rayleigh_quotient(x, st), num / den, 1e-12, 1e-12);
}
SECTION(eigen_2) { words(std::vector<double>{-5, -3, -2, -1, 0, 1, 2, 4, 7}, 3, [&](const std::vector<double>& v) { M a{2, {v[0], v[1], v[1], v[2]}}; if (vf::begin("eigen %s", show(a.v).c_str())) eigen(a); }); }
SECTION(eigen_3) { words(std::vector<double>{-2, 0, 1, 5}, 6, [&](const std::vector<double>& o) { if (!vf::thorough() && (o[0] == 5 || o[1] == 5)) return; M a{3, {o[3], o[0], o[1], o[0], o[4], o[2], o[1], o[2], o[5]}}; if (vf::begin("eigen %s", show(a.v).c_str())) eigen(a); }); }
SECTION(eigen_shapes) {
	for (unsigned r = 1; r <= 3; ++r) for (unsigned c = 1; c <= 3; ++c) for (unsigned k = 1; k <= 3; ++k) {
		if (r == c && k == r) continue; if (!vf::begin("eigen shape %ux%u with %u", r, c, k)) continue;
		X a(r, c); algebra::make_identity(a); vec<real> b(k, 1.0), v(k, 0.0);
		auto er = [&](const char* t, double l) { CHECKF(t, errno == EINVAL && l != l, "value %g errno=%d", l, errno); errno = 0; };
		errno = 0; er("power", algebra::eigenvalue_power(a, b)); er("pair power", algebra::eigenpair_power(a, b, v)); er("inverse", algebra::eigenvalue_inverse(a, b)); er("pair inverse", algebra::eigenpair_inverse(a, b, v)); er("rayleigh", algebra::eigenvalue_rayleigh(a, 0.5, b)); er("pair rayleigh", algebra::eigenpair_rayleigh(a, 0.5, b, v));
		algebra::eigenvector_inverse(a, 0.5, b); CHECK("eigenvector shape", errno == EINVAL);
	}
}
VF_MAIN
