// Polynomials, orthogonal families and interpolation: every polynomial / node set over small alphabets.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
typedef long double L;
typedef polynomial<real> P;
typedef std::vector<real> V;
static P mk(const V& v) { P p; p.coeff = v; return p; }
static real at(const V& v, size_t i) { return i < v.size() ? v[i] : 0; }
static int order(const V& v) { for (int i = (int) v.size() - 1; i >= 0; --i) if (v[i] != 0) return i; return -1; }
static L ev(const V& v, L x) { L r = 0, p = 1; for (real c : v) { r += c * p; p *= x; } return r; }
// compare coefficient by coefficient, missing ones are zero
static void same(const char* tag, const P& p, const V& w, double tol = 1e-12) {
	++vf::S().checks; uint64_t h = 5; size_t n = std::max(p.size(), w.size());
	for (size_t i = 0; i < n; ++i) { double g = i < p.size() ? p[i] : 0, e = at(w, i); h = vf::mix(h, vf::hd((float) g)); if (!(std::fabs(g - e) <= tol * (1 + std::fabs(e)))) { vf::fail(tag, "coefficient %zu: got %.17g, expected %.17g", i, g, e); return; } }
	vf::state(h);
}
static bool isnanp(const P& p) { bool r = p.size() > 0; for (size_t i = 0; i < p.size(); ++i) r = r && p[i] != p[i]; return r; }
static V lin(const V& a, L s, const V& b, L t) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) r[i] = s * at(a, i) + t * at(b, i); return r; }
static V mul(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
static V quot(V a, const V& d) { int m = order(d), n = order(a); if (n < m) return {}; V q(n - m + 1, 0); for (int k = n - m; k >= 0; --k) { q[k] = a[k + m] / d[m]; for (int j = 0; j <= m; ++j) a[k + j] -= q[k] * d[j]; } return q; }
static V scale(const V& a, L s) { return lin(a, s, {}, 0); }

static void pair(const V& a, const V& b) {
	if (!vf::begin("p=%s q=%s", show(a).c_str(), show(b).c_str())) return;
	const P p = mk(a), q = mk(b); errno = 0;
	same("+", p + q, lin(a, 1, b, 1)); same("-", p - q, lin(a, 1, b, -1)); same("*", p * q, mul(a, b));
	P t = p; { P& r = (t += q); CHECK("+= self", &r == &t); } same("+=", t, lin(a, 1, b, 1)); t = p; { P& r = (t -= q); CHECK("-= self", &r == &t); } same("-=", t, lin(a, 1, b, -1)); t = p; { P& r = (t *= q); CHECK("*= self", &r == &t); } same("*=", t, mul(a, b));
	bool eq = true; for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) eq = eq && at(a, i) == at(b, i);
	CHECKF("==", (p == q) == eq, "p == q is %d", (int) (p == q));
	CHECK("no error", errno == 0);
	if (order(b) >= 0) {
		P d = p / q; V w = quot(a, b); same("/", d, w, 1e-9); t = p; t /= q; same("/=", t, w, 1e-9);
		P r = p - d * q; for (size_t i = (size_t) order(b); i < r.size(); ++i) CHECKF("remainder has lower degree", std::fabs(r[i]) < 1e-9, "remainder coefficient %zu is %g", i, r[i]);
		CHECKF("no error dividing", errno == 0, "errno=%d", errno);
	} else { P d = p / q; CHECK("division by the null polynomial", errno == ERANGE && isnanp(d)); errno = 0; t = p; t /= q; CHECK("/= null", errno == ERANGE && isnanp(t)); }
	CHECK("operands kept", p.coeff == a && q.coeff == b);
}
SECTION(ring_pairs3) { std::vector<V> all; words_upto<real>({-2, 0, 1, 3}, 0, 3, [&](const V& w) { all.push_back(w); }); for (auto& a : all) for (auto& b : all) pair(a, b); }
SECTION(ring_pairs5) { std::vector<V> all; words_upto<real>({-0.5, 0, 2}, 4, vf::thorough() ? 5 : 4, [&](const V& w) { all.push_back(w); }); std::vector<V> sm; words_upto<real>({-3, 0, 1}, 0, vf::thorough() ? 4 : 3, [&](const V& w) { sm.push_back(w); }); for (auto& a : all) for (auto& b : sm) { pair(a, b); pair(b, a); } }
SECTION(ring_unary) {
	words_upto<real>({-2, -0.25, 0, 1, 5}, 0, 4, [&](const V& a) {
		if (!vf::begin("p=%s", show(a).c_str())) return;
		const P p = mk(a); errno = 0; int n = order(a);
		EQ("find_order", (int) p.find_order(), n < 0 ? 0 : n); EQ("size", p.size(), a.size());
		P t = p; t.trim(); same("trim keeps the value", t, a); EQ("trim size", (int) t.size(), n + 1);
		for (real x : {-3., -1., -0.5, 0., 0.1, 1., 2., 10.}) { NEAR("eval", p.eval(x), ev(a, x), 1e-12, 1e-12); NEAR("()", p(x), ev(a, x), 1e-12, 1e-12); }
		{ complex<> z(0.5, -2); complex<> g = p.template eval<complex<>>(z); L re = 0, im = 0, pr = 1, pi = 0; for (real c : a) { re += c * pr; im += c * pi; L nr = pr * 0.5L - pi * -2.0L; pi = pr * -2.0L + pi * 0.5L; pr = nr; } NEAR("complex eval", g.Re(), re, 1e-12, 1e-12); NEAR("complex eval", g.Im(), im, 1e-12, 1e-12); }
		for (real k : {-2., 0., 0.5, 3.}) {
			same("p*k", p * k, scale(a, k)); same("k*p", k * p, scale(a, k)); t = p; t *= k; same("*=k", t, scale(a, k)); same("k+p", k + p, lin(a, 1, {k}, 1)); same("k-p", k - p, lin(a, -1, {k}, 1)); same("p+k", p + P(k), lin(a, 1, {k}, 1));
			CHECK("errno", errno == 0);
			if (k != 0) { same("p/k", p / k, scale(a, 1.0L / k)); t = p; t /= k; same("/=k", t, scale(a, 1.0L / k)); CHECK("errno", errno == 0); }
			else { P r = p / k; CHECK("p/0", errno == ERANGE && isnanp(r)); errno = 0; t = p; t /= k; CHECK("/=0", errno == ERANGE && isnanp(t)); errno = 0; }
		}
		t = p; t += t; same("+= itself", t, scale(a, 2)); t = p; t -= t; same("-= itself", t, {}); t = p; t *= t; same("*= itself", t, mul(a, a)); if (n >= 0) { t = p; t /= t; same("/= itself", t, {1}); CHECK("errno", errno == 0); }
		for (size_t i = 0; i < a.size(); ++i) { EQ("[]", p[i], a[i]); EQ("get", p.get(i), a[i]); t = p; t.at(i) = 7; EQ("at", t[i], 7.0); }
		size_t c = 0; for (real x : t = p) EQ("iterate", x, a[c++]); EQ("iterated", c, a.size());
		CHECK("kept", p.coeff == a);
	});
	for (unsigned k = 0; k < 9; ++k) for (real c : {-3., 0., 0.5}) if (vf::begin("monomial %g x^%u", c, k)) { P m = P::monomial(c, k); V w(k + 1, 0); w[k] = c; same("monomial", m, w); EQ("size", m.size(), k + 1); P q = P({1, 2, -1}); same("monomial product shifts", m * q, mul(w, {1, 2, -1})); same("from list", P({c, 1}), {c, 1}); same("constant", P(c), {c}); }
	words_upto<real>({-2, -1, 0, 0.5, 3}, 0, 5, [&](const V& r) {
		if (!vf::begin("from_roots %s", show(r).c_str())) return;
		P p = P::from_roots(r); V w = {1}; for (real x : r) w = mul(w, {-x, 1}); same("from_roots", p, w); EQ("monic", p[p.size() - 1], 1.0); for (real x : r) NEAR("vanishes", p(x), 0, 1e-9, 1e-9);
		// exact quotient by each linear factor
		for (real x : r) { errno = 0; P q = p / P({-x, 1}); V e = quot(w, {-x, 1}); same("divide by a factor", q, e, 1e-9); CHECK("errno", errno == 0); }
	});
}
SECTION(ring_words) {
	static const char* nm[] = {"+=q", "-=q", "*=q", "/=q", "+=1", "-=x", "*=-2", "/=4", "trim", "k-p"};
	std::vector<int> ops; for (int i = 0; i < 10; ++i) ops.push_back(i);
	std::vector<V> st = {{}, {0}, {1, 0, 2}, {-1, 3, 0, 1}, {2, 0, 0}}, qs = {{1, 1}, {-2}, {0, 0, 1}, {1, -1, 2, 0}};
	for (auto& s : st) for (auto& q : qs) for (int n = 1; n <= (vf::thorough() ? 4 : 3); ++n) words(ops, n, [&](const std::vector<int>& wd) {
		std::string d; for (int o : wd) { d += nm[o]; d += ' '; }
		if (!vf::begin("p=%s q=%s: %s", show(s).c_str(), show(q).c_str(), d.c_str())) return;
		P p = mk(s), Q = mk(q); V a = s; errno = 0;
		for (int o : wd) {
			switch (o) {
			case 0: p += Q; a = lin(a, 1, q, 1); break; case 1: p -= Q; a = lin(a, 1, q, -1); break; case 2: p *= Q; a = mul(a, q); break; case 3: p /= Q; a = quot(a, q); break;
			case 4: p += P(1.0); a = lin(a, 1, {1}, 1); break; case 5: p -= P({0, 1}); a = lin(a, 1, {0, 1}, -1); break; case 6: p *= -2.0; a = scale(a, -2); break; case 7: p /= 4.0; a = scale(a, 0.25L); break; case 8: p.trim(); break; case 9: p = 1.5 - p; a = lin(a, -1, {1.5}, 1); break;
			}
			same(nm[o], p, a, 1e-9);
		}
		CHECK("no error", errno == 0); same("q kept", Q, q);
	});
}
SECTION(ring_quadratic) {
	V al = {-1000, -3, -1, -0.5, 0, 1e-3, 1, 2, 7.5, 1000};
	for (real a : al) for (real b : al) for (real c : al) for (int pad = 0; pad < 2; ++pad) {
		if (!vf::begin("quadratic %g %g %g%s", c, b, a, pad ? " padded" : "")) continue;
		P p = pad ? P({c, b, a, 0}) : P({c, b, a}); errno = 0; auto z = p.quadratic_roots();
		if (a == 0) { CHECK("not quadratic", errno != 0 && z[0].Re() != z[0].Re() && z[1].Re() != z[1].Re()); continue; }
		CHECK("no error", errno == 0); L pp = (L) b / a, q = (L) c / a;
		complex<> s = z[0] + z[1], m = z[0] * z[1]; double sc = 1 + fabsl(pp) + sqrtl(fabsl(q));
		NEAR("sum of roots", s.Re(), -pp, 1e-10, 1e-10 * sc); NEAR("sum of roots", s.Im(), 0, 0, 1e-10 * sc); NEAR("product of roots", m.Re(), q, 1e-10, 1e-10); NEAR("product of roots", m.Im(), 0, 0, 1e-10 * sc * sc);
		L D = pp * pp / 4 - q; L r1 = D >= 0 ? -pp / 2 + sqrtl(D) : -pp / 2, i1 = D >= 0 ? 0 : sqrtl(-D); L r2 = D >= 0 ? -pp / 2 - sqrtl(D) : -pp / 2;
		if (D >= 0) { if (r1 < r2) std::swap(r1, r2); real x = z[0].Re(), y = z[1].Re(); if (x < y) std::swap(x, y); NEAR("real root", x, r1, 1e-7, 3e-8 * sc); NEAR("real root", y, r2, 1e-7, 3e-8 * sc); CHECK("real", std::fabs(z[0].Im()) < 1e-6 * sc && std::fabs(z[1].Im()) < 1e-6 * sc); }
		else { NEAR("complex root", z[0].Re(), -pp / 2, 1e-9, 1e-9 * sc); NEAR("complex root", std::fabs(z[0].Im()), i1, 1e-7, 3e-8 * sc); NEAR("conjugate", z[1].Im(), -z[0].Im(), 1e-8, 1e-9 * sc); }
	}
}
SECTION(ring_print) {
	words_upto<real>({-2, 0, 1, 3}, 0, 3, [&](const V& a) {
		if (!vf::begin("print %s", show(a).c_str())) return;
		std::ostringstream o; o << mk(a); std::string s = o.str(); P p = mk(a); CHECK("to_string", s == p.to_string() && s == (std::string) p);
		// parse it back: terms "<sign> <abs>[*x^k ]"
		V back(a.size() + 1, 0); if (s == "0") {} else { const char* c = s.c_str(); while (*c) { while (*c == ' ') ++c; if (!*c) break; double sg = *c == '-' ? -1 : 1; CHECK("sign", *c == '-' || *c == '+'); ++c; char* e; double v = strtod(c, &e); if (e == c) { vf::fail("parse", "%s", s.c_str()); break; } c = e; unsigned k = 0; if (!strncmp(c, "*x^", 3)) { k = strtoul(c + 3, &e, 10); c = e; } if (k < back.size()) back[k] += sg * v; else { vf::fail("parse", "%s", s.c_str()); break; } } }
		for (size_t i = 0; i < a.size(); ++i) CHECKF("printed terms", back[i] == a[i], "%s", s.c_str());
		CHECK("other names", mk({0, 2}).to_string("y", "**") == "+ 2*y**1 ");
	});
}
// long quotients, many roots
SECTION(ring_long) {
	for (unsigned n = 0; n <= 70; ++n) for (const V& d : {V{1, 1}, V{-1, 0, 1}, V{2}, V{0, 0, 1}, V{1, -1, 1, 0}}) if (vf::begin("quotient of %u coefficients by %s", n, show(d).c_str())) { V q(n); for (unsigned i = 0; i < n; ++i) q[i] = (int) ((i * 5) % 7) - 3; if (n) q[n - 1] = 2; V a = mul(q, d); int m = order(d); if (a.size() && m > 0) a[0] += 1; errno = 0; P r = mk(a) / mk(d); same("quotient", r, q, 1e-9); P t = mk(a); t /= mk(d); same("/=", t, q, 1e-9); CHECK("no error", errno == 0); }
	for (unsigned n = 0; n <= 50; ++n) if (vf::begin("from %u roots of unity", n)) { V r; for (unsigned i = 0; i < n; ++i) r.push_back(i % 2 ? -1 : 1); V w = {1}; for (real x : r) w = mul(w, {-x, 1}); P p = P::from_roots(r); EQ("size", p.size(), n + 1); same("from_roots", p, w); }
	for (unsigned n = 0; n <= 300; n = n < 70 ? n + 1 : n + 46) if (vf::begin("sums of %u coefficients", n)) { V a(n), b(n ? n - n / 3 : 0); for (unsigned i = 0; i < a.size(); ++i) a[i] = (int) ((i * 3) % 11) - 5; for (unsigned i = 0; i < b.size(); ++i) b[i] = (int) ((i * 7) % 5) - 2; errno = 0; const P p = mk(a), q = mk(b); same("+", p + q, lin(a, 1, b, 1)); same("-", p - q, lin(a, 1, b, -1)); same("swapped -", q - p, lin(b, 1, a, -1)); same("swapped +", q + p, lin(b, 1, a, 1)); P t = q; t += p; same("+=", t, lin(a, 1, b, 1)); t = q; t -= p; same("-=", t, lin(b, 1, a, -1)); same("*", p * q, mul(a, b)); t = p; t *= q; same("*=", t, mul(a, b)); same("k-p", 1.5 - p, lin(a, -1, {1.5}, 1)); L x = -0.75L; NEAR("eval", p((real) x), ev(a, x), 1e-12, 1e-11); CHECK("==", p == mk(a)); if (n) { V c = a; c[n - 1] += 1; CHECK("!=", !(p == mk(c))); c = a; c[n / 2] -= 1; CHECK("!=", !(p == mk(c)) && !(mk(c) == p)); } CHECK("no error", errno == 0); }
}
// coefficients which are not binary fractions, of every magnitude: the division identity
SECTION(ring_rounded) {
	for (int e = -9; e <= 60; e += 3) for (int f = -30; f <= 18; f += 6) if (e - f > -15) words<real>({-7.3, 0.1, 3.7}, 4, [&](const V& a) { for (const V& d : {V{1.1, 0.3}, V{0.7, -0.9, 1.3}, V{-0.2, 0.6, 0, 2.9}}) { if (!vf::begin("%s 2^%d by %s 2^%d", show(a).c_str(), e, show(d).c_str(), f)) continue; V A = scale(a, ldexpl(1, e)), D = scale(d, ldexpl(1, f)); errno = 0; P q = mk(A) / mk(D); CHECK("no error", errno == 0); EQ("quotient order", (int) q.find_order(), (int) (a.size() - d.size())); V w = quot(a, d); L s = ldexpl(1, e - f); L big = 0; for (real x : w) big = std::max(big, fabsl((L) x)); for (size_t i = 0; i < w.size(); ++i) NEAR("quotient coefficient", (i < q.size() ? q[i] : 0), w[i] * s, 0, (double) (1e-11L * big * s)); P t = mk(A); t /= mk(D); CHECK("/= equals /", t == q); } });
}
// a root of every magnitude next to a large one
SECTION(ring_small_root) {
	for (int k = 0; k <= 100; ++k) for (int sg : {-1, 1}) for (real r2 : {2., -5., 300., 1e6}) { real r1 = sg * std::ldexp(1.25, k % 2 ? -k / 2 : k / 2); if (std::fabs(r1 * r2) < 1e-15) continue; if (!vf::begin("roots %g and %g", r1, r2)) continue; errno = 0; L sum = -((L) r1 + r2), pr = (L) r1 * r2; if ((L) (real) sum != sum || (L) (real) pr != pr) continue; if (fabsl(sum) <= 1 || fabsl((L) r1 - r2) < 0.1L * fabsl(r2)) continue; P p({(real) pr, (real) sum, 1}); auto z = p.quadratic_roots(); CHECK("no error", errno == 0); real x = z[0].Re(), y = z[1].Re(); if (std::fabs(x - r1) > std::fabs(y - r1)) std::swap(x, y); NEAR("first root", x, r1, 1e-7, 0); NEAR("second root", y, r2, 1e-7, 0); }
}
// ---- orthogonal families --------------------------------------------------------------------------
static L laguerre(int n, L a, L x) { L p0 = 1, p1 = 1 + a - x; if (n == 0) return p0; for (int k = 2; k <= n; ++k) { L p = ((2 * k - 1 + a - x) * p1 - (k - 1 + a) * p0) / k; p0 = p1; p1 = p; } return p1; }
static L hermite(int n, L x) { L p0 = 1, p1 = 2 * x; if (n == 0) return p0; for (int k = 2; k <= n; ++k) { L p = 2 * x * p1 - 2 * (k - 1) * p0; p0 = p1; p1 = p; } return p1; }
static L legendre(int n, L x) { L p0 = 1, p1 = x; if (n == 0) return p0; for (int k = 2; k <= n; ++k) { L p = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p; } return p1; }
static L dlegendre(int n, L x, int m) { // m-th derivative from coefficients
	std::vector<L> a = {1}, b = {0, 1}, c; if (n == 0) c = a; else c = b; for (int k = 2; k <= n; ++k) { c.assign(k + 1, 0); for (size_t i = 0; i < b.size(); ++i) c[i + 1] += (2 * k - 1) * b[i] / k; for (size_t i = 0; i < a.size(); ++i) c[i] -= (k - 1) * a[i] / k; a = b; b = c; }
	for (int j = 0; j < m; ++j) { if (c.size() <= 1) return 0; for (size_t i = 1; i < c.size(); ++i) c[i - 1] = c[i] * i; c.pop_back(); }
	L r = 0; for (size_t i = c.size(); i-- > 0;) r = c[i] + x * r; return r; }
static L factl(int n) { L r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
SECTION(ortho_values) {
	for (int n = 0; n <= 20; ++n) {
		if (!vf::begin("families of degree %d", n)) continue;
		errno = 0; P le = legendre_polynomial(n), la = laguerre_polynomial(n), he = hermite_polynomial(n), t1 = chebyshev1_polynomial(n), t2 = chebyshev2_polynomial(n);
		EQ("degree", (int) le.find_order(), n); EQ("degree", (int) he.find_order(), n); EQ("degree", (int) t1.find_order(), n); EQ("degree", (int) t2.find_order(), n); EQ("size", (int) la.size(), n + 1);
		double g = std::pow(2.5, n) * 1e-14;   // growth of monomial coefficients
		for (int i = -10; i <= 10; ++i) { real x = i / 10.0; L th_ = acosl(x), s = sinl(th_); NEAR("Legendre", le(x), legendre(n, x), 1e-9, g); NEAR("Chebyshev 1", t1(x), cosl(n * th_), 1e-9, g); if (s > 1e-6L) NEAR("Chebyshev 2", t2(x), sinl((n + 1) * th_) / s, 1e-9, g * 10); L h = hermite(n, x); NEAR("Hermite", he(x), h, 1e-9, 1e-9 * fabsl(hermite(n, 1.5L)) + 1e-9); }
		for (int i = 0; i <= 10; ++i) { real x = i * 0.5; NEAR("Laguerre", la(x), laguerre(n, 0, x), 1e-9, std::exp(2 * std::sqrt(n * x)) * 1e-12 + 1e-12); for (real al : {-0.5, 0., 1., 2.5}) NEAR("generalized Laguerre", general_laguerre_polynomial(al, n)(x), laguerre(n, al, x), 1e-9, std::exp(2 * std::sqrt(n * x)) * 1e-11 + 1e-11); }
		NEAR("Legendre normalization", legendre_polyn_normalization(n), sqrtl((2 * n + 1) / 2.0L), 1e-12, 0);
		NEAR("Hermite normalization", hermite_polyn_normalization(n), 1 / sqrtl(powl(2, n) * factl(n) * sqrtl(M_PIl)), 1e-9, 0);
		// three-term recurrences as exposed
		if (n >= 2) { P a = legendre_polynomial(n - 2), b = legendre_polynomial(n - 1), r = legendre_polyn_recurr(a, b, n); for (size_t i = 0; i < r.size(); ++i) NEAR("recurrence", r[i], le[i], 1e-9, 1e-9); }
		CHECK("no error", errno == 0);
	}
	for (int l = 0; l <= 14; ++l) for (int m = -l; m <= l; ++m) {
		if (!vf::begin("associated Legendre %d %d", l, m)) continue;
		errno = 0; auto f = assoc_legendre_polynomial(l, m); int k = m < 0 ? -m : m; L norm = m < 0 ? factl(l - k) / factl(l + k) : 1, sg = (m > 0 && k % 2) ? -1 : 1; const double at = (double) (norm * factl(l + k) / factl(l - k) / powl(2, k) / factl(k)) * std::pow(2.5, l) * 1e-15;
		for (int i = -9; i <= 9; ++i) { real x = i / 10.0; L w = powl(1 - (L) x * x, k / 2.0L) * dlegendre(l, x, k) * norm; NEAR("associated Legendre", f(x), sg * w, 1e-8, at); if (k % 2 == 0) NEAR("even associated Legendre", assoc_legendre_polynomial_even(l, m)(x), w, 1e-8, at); }
		CHECK("no error", errno == 0);
		if (k % 2) { errno = 0; assoc_legendre_polynomial_even(l, m); CHECK("odd order reported", errno != 0); }
	}
}
// quadrature weights integrate every monomial of degree < 2n exactly
SECTION(ortho_gauss) {
	for (unsigned n = 1; n <= 16; ++n) {
		if (!vf::begin("Legendre roots and weights %u", n)) continue;
		errno = 0; V r = legendre_roots(n); EQ("number of roots", r.size(), n); V s = r; std::sort(s.begin(), s.end());
		for (size_t i = 0; i < s.size(); ++i) { CHECKF("inside (-1,1)", s[i] > -1 && s[i] < 1, "%g", s[i]); if (i) CHECKF("roots are distinct", s[i] - s[i - 1] > 1e-3, "%g %g", s[i - 1], s[i]); NEAR("root", legendre(n, s[i]), 0, 0, 1e-8); NEAR("symmetric", s[i] + s[s.size() - 1 - i], 0, 0, 1e-8); }
		V w = legendre_weights(r); EQ("number of weights", w.size(), n);
		for (unsigned k = 0; k < 2 * n && w.size() == n; ++k) { L q = 0; for (size_t i = 0; i < r.size(); ++i) q += w[i] * powl(r[i], k); NEAR("moment", q, k % 2 ? 0 : 2.0L / (k + 1), 0, 1e-7); }
		CHECK("no error", errno == 0);
	}
	// zeros of Laguerre and Hermite polynomials found by bisection in long double
	for (int n = 1; n <= 18; ++n) {
		auto zeros = [&](L lo, L hi, std::function<L(L)> f) { V z; L prev = f(lo), x0 = lo; int N = 40000; for (int i = 1; i <= N; ++i) { L x = lo + (hi - lo) * i / N, v = f(x); if (prev == 0) z.push_back(x0); else if (v * prev < 0) { L a = x0, b = x; for (int k = 0; k < 80; ++k) { L m = (a + b) / 2; if (f(m) * prev <= 0) b = m; else a = m; } z.push_back((a + b) / 2); } prev = v; x0 = x; } return z; };
		if (vf::begin("Hermite weights %d", n)) {
			V z = zeros(-std::sqrt(2.0 * n + 1) - 0.013, std::sqrt(2.0 * n + 1) + 0.017, [&](L x) { return hermite(n, x); }); if (z.size() != (size_t) n) { vf::count("oracle found too few zeros"); continue; }
			errno = 0; V w = hermite_weights(z); EQ("count", w.size(), z.size()); for (int k = 0; k < 2 * n && k < 12; ++k) { L q = 0; for (int i = 0; i < n; ++i) q += w[i] * powl(z[i], k); NEAR("Hermite moment", q, k % 2 ? 0 : tgammal((k + 1) / 2.0L), 1e-7, 1e-6); } CHECK("no error", errno == 0); }
		if (n <= 12 && vf::begin("Laguerre weights %d", n)) {
			V z = zeros(1e-4L, 4.0L * n + 2, [&](L x) { return laguerre(n, 0, x); }); if (z.size() != (size_t) n) { vf::count("oracle found too few zeros"); continue; }
			errno = 0; V w = laguerre_weights(z); EQ("count", w.size(), z.size()); for (int k = 0; k < 2 * n && k < 8; ++k) { L q = 0; for (int i = 0; i < n; ++i) q += w[i] * powl(z[i], k); NEAR("Laguerre moment", q, factl(k), 1e-6, 0); } CHECK("no error", errno == 0); }
	}
	if (vf::begin("no nodes")) { errno = 0; CHECK("empty", legendre_roots(0).empty() && legendre_weights({}).empty() && laguerre_weights({}).empty() && hermite_weights({}).empty()); }
}
// ---- polynomial interpolation -----------------------------------------------------------------------
SECTION(interp_lagrange) {
	std::vector<V> xs; V xa = {-2, -0.5, 0, 1, 3};
	words_upto<real>(xa, 0, 4, [&](const V& x) { xs.push_back(x); });
	for (auto& x : xs) { std::vector<V> ys; if (x.size() <= 2) words<real>({-1, 0, 2}, x.size(), [&](const V& y) { ys.push_back(y); }); else words<real>({-1, 2.5}, x.size(), [&](const V& y) { ys.push_back(y); });
		for (auto& y : ys) {
			if (!vf::begin("Lagrange x=%s y=%s", show(x).c_str(), show(y).c_str())) continue;
			std::vector<vec2> p(x.size()); for (size_t i = 0; i < x.size(); ++i) p[i] = {x[i], y[i]};
			bool dup = false; for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < i; ++j) dup |= x[i] == x[j];
			errno = 0; P q = lagrange_polynomial(p);
			if (x.empty() || dup) { CHECK("refused", errno == EINVAL && isnanp(q)); continue; }
			CHECK("no error", errno == 0); CHECK("degree below the number of points", q.find_order() < x.size());
			for (size_t i = 0; i < x.size(); ++i) NEAR("passes through the points", q(x[i]), y[i], 1e-9, 1e-9);
		} }
	// polynomials of degree <= order are reproduced
	words_upto<real>({-1.5, 0, 2}, 1, 4, [&](const V& c) { for (auto iv : {std::make_pair(-1., 1.), std::make_pair(0.5, 4.), std::make_pair(-3., -1.)}) for (unsigned o = 0; o <= 6; ++o) {
		if (!vf::begin("interpolate %s on [%g,%g] order %u", show(c).c_str(), iv.first, iv.second, o)) return;
		auto f = [&](real x) -> real { return ev(c, x); }; errno = 0; P g = interpolate_grid(f, iv.first, iv.second, o), h = interpolate_chebyshev(f, iv.first, iv.second, o);
		CHECK("no error", errno == 0); CHECK("order", g.find_order() <= o && h.find_order() <= o);
		V nd = chebyshev_nodes(iv.first, iv.second, o + 1); EQ("nodes", nd.size(), o + 1);
		for (unsigned i = 0; i <= o; ++i) { real x = o ? iv.first + (iv.second - iv.first) * i / o : (iv.first + iv.second) / 2; if (o) NEAR("grid node", g(x), f(x), 1e-7, 1e-7); L w = (iv.first + iv.second) / 2 + (iv.second - iv.first) / 2 * cosl((2 * i + 1) * M_PIl / (2 * (o + 1))); NEAR("Chebyshev node", nd[i], w, 1e-9, 1e-9); NEAR("through the node", h(nd[i]), f(nd[i]), 1e-7, 1e-7); }
		if (order(c) <= (int) o) for (int i = 0; i <= 8; ++i) { real x = iv.first + (iv.second - iv.first) * i / 8; NEAR("reproduces (grid)", g(x), f(x), 1e-7, 1e-7); NEAR("reproduces (Chebyshev)", h(x), f(x), 1e-7, 1e-7); }
		if (o == 0) { bool inside = false; for (int i = 0; i <= 1000; ++i) if (std::fabs(g(0.0) - f(iv.first + (iv.second - iv.first) * i / 1000)) < 0.05 + 0.02 * std::fabs(g(0.0))) inside = true; CHECK("order 0 takes a value of the function", inside); }
	} });
}
// nodes at every distance from each other, and large node counts
SECTION(interp_close) {
	for (int e = -45; e <= 45; ++e) for (real c : {0., 1., -3.}) words_upto<real>({-1, 0, 2}, 2, 3, [&](const V& y) { real h = std::ldexp(1.0, e); if (c != 0 && (e < -30 || e > 30)) return; if (!vf::begin("nodes %g apart from %g, values %s", h, c, show(y).c_str())) return; std::vector<vec2> p; for (size_t i = 0; i < y.size(); ++i) p.push_back({c + h * (i == 2 ? 4 : (real) i), y[i]}); errno = 0; P q = lagrange_polynomial(p); CHECK("no error", errno == 0); EQ("size", q.size(), y.size()); if (q.size() != y.size()) return;
		if (y.size() == 2) { L sl = ((L) y[1] - y[0]) / h; NEAR("slope", q[1], sl, 1e-13, 0); NEAR("intercept", q[0], y[0] - sl * c, 1e-13, 1e-13 * std::fabs(c) / h); }
		else { L d1 = ((L) y[1] - y[0]) / h, d2 = ((L) y[2] - y[1]) / (3 * (L) h), s2 = (d2 - d1) / (4 * (L) h); L sc = 5 / (L) h / h; NEAR("leading coefficient", q[2], s2, 1e-13, (double) (1e-13L * sc)); if (c == 0) { NEAR("middle coefficient", q[1], d1 - s2 * h, 1e-13, (double) (1e-13L * 10 / h)); NEAR("value at zero", q[0], y[0], 1e-13, 1e-13); } } });
	for (unsigned o = 0; o <= 16; ++o) for (auto iv : {std::make_pair(-1., 1.), std::make_pair(0.1, 1.3), std::make_pair(-0.7, 0.9), std::make_pair(0.9, -0.7)}) { if (!vf::begin("order %u on [%g,%g]", o, iv.first, iv.second)) continue; std::vector<real> seen; auto f = [&](real x) -> real { seen.push_back(x); return std::sin(3 * x) + 2; }; errno = 0; P g = interpolate_grid(f, iv.first, iv.second, o); auto uniq = [&]() { std::sort(seen.begin(), seen.end()); seen.erase(std::unique(seen.begin(), seen.end()), seen.end()); }; uniq(); EQ("nodes evaluated", seen.size(), o + 1); real lo = std::min(iv.first, iv.second), hi = std::max(iv.first, iv.second); for (unsigned i = 0; o && i < seen.size(); ++i) NEAR("evaluated at the grid", seen[i], lo + (hi - (L) lo) * i / o, 1e-14, 1e-14); if (!o && seen.size()) NEAR("evaluated in the middle", seen[0], (iv.first + iv.second) / 2, 1e-14, 1e-14); std::vector<real> xs = seen; for (real x : xs) NEAR("through the node", g(x), std::sin(3 * x) + 2, 0, 1e-13 * std::pow(5.0, o)); seen.clear(); P h = interpolate_chebyshev(f, iv.first, iv.second, o); uniq(); EQ("nodes evaluated", seen.size(), o + 1); xs = seen; for (real x : xs) NEAR("through the node", h(x), std::sin(3 * x) + 2, 0, 1e-13 * std::pow(5.0, o)); std::sort(xs.begin(), xs.end()); for (unsigned i = 0; i < xs.size(); ++i) NEAR("evaluated at the Chebyshev nodes", xs[i], ((L) iv.first + iv.second) / 2 - fabsl((L) iv.second - iv.first) / 2 * cosl((2 * i + 1) * M_PIl / (2 * (o + 1))), 1e-9, 1e-9); CHECK("no error", errno == 0); }
}
// ---- splines, Bezier, linear ---------------------------------------------------------------------------
static void spl(const V& x, const V& y) {
	if (!vf::begin("spline x=%s y=%s", show(x).c_str(), show(y).c_str())) return;
	std::vector<vec2> p(x.size()); for (size_t i = 0; i < x.size(); ++i) p[i] = {x[i], y[i]}; errno = 0;
	spline s1(p), s2(x, y); spline s3(p); s3 = s2; auto n1 = cubic_splines(p), n2 = cubic_splines(x, y);
	size_t n = x.size() - 1; CHECK("nodes", s1.nodes.size() == n && s2.nodes.size() == n && n1.size() == n && n2.size() == n); if (s1.nodes.size() != n || n2.size() != n) return;
	size_t cnt = 0; for (auto& nd : s1) { (void) nd; ++cnt; } EQ("iterate", cnt, n);
	CHECK("no error", errno == 0);
	for (const spline* s : {&s1, &s2, &s3}) {
		for (size_t i = 0; i <= n; ++i) NEAR("interpolates", (*s)(x[i]), y[i], 1e-9, 1e-9);
		auto& nd = s->nodes;
		for (size_t i = 0; i < n; ++i) { real h = x[i + 1] - x[i]; EQ("node abscissa", nd[i].x, x[i]); NEAR("left value", nd[i](x[i]), y[i], 1e-9, 1e-9); NEAR("right value", nd[i](x[i + 1]), y[i + 1], 1e-9, 1e-9);
			real right1 = nd[i].b + h * (2 * nd[i].c + 3 * h * nd[i].d), right2 = 2 * nd[i].c + 6 * h * nd[i].d;
			if (i + 1 < n) { NEAR("continuous first derivative", right1, nd[i + 1].b, 1e-8, 1e-8); NEAR("continuous second derivative", right2, 2 * nd[i + 1].c, 1e-8, 1e-8); } else NEAR("natural end", right2, 0, 0, 1e-8);
			NEAR("deriv at the node", s->deriv(x[i]), nd[i].b, 1e-9, 1e-9); real m = x[i] + h / 3; NEAR("deriv inside", s->deriv(m), nd[i].b + h / 3 * (2 * nd[i].c + h * nd[i].d), 1e-9, 1e-9); NEAR("value inside", (*s)(m), nd[i].a + h / 3 * (nd[i].b + h / 3 * (nd[i].c + h / 3 * nd[i].d)), 1e-9, 1e-9); }
		NEAR("natural start", nd[0].c, 0, 0, 1e-9);
		NEAR("extrapolates from the first piece", (*s)(x[0] - 1), nd[0](x[0] - 1), 1e-12, 1e-12); NEAR("extrapolates from the last piece", (*s)(x[n] + 2), nd[n - 1](x[n] + 2), 1e-12, 1e-12);
	}
}
SECTION(spline_natural) {
	if (vf::begin("default node")) { spline_node d; CHECK("default node is zero", d.x == 0 && d(0.0) == 0 && d(1.5) == 0 && d.deriv(2.0) == 0); spline_node e(1, 2, 3, 4, 5); EQ("node", e(3.0), 2.0 + 6 + 16 + 40); EQ("node deriv", e.deriv(3.0), 3.0 + 16 + 60); }
	words_upto<real>({0.5, 1, 3}, 1, 4, [&](const V& dx) { V x = {-1}; for (real d : dx) x.push_back(x.back() + d); if (x.size() <= 4) words<real>({-1, 0, 2}, x.size(), [&](const V& y) { spl(x, y); }); else words<real>({-1, 2}, x.size(), [&](const V& y) { spl(x, y); }); });
	if (vf::thorough()) words<real>({0.5, 1, 3}, 6, [&](const V& dx) { V x = {0}; for (real d : dx) x.push_back(x.back() + d); words<real>({-1, 2}, x.size(), [&](const V& y) { spl(x, y); }); });
	for (unsigned a = 0; a <= 4; ++a) for (unsigned b = 0; b <= 4; ++b) if (a != b || a < 2) { if (!vf::begin("spline sizes %u %u", a, b)) continue; V x(a), y(b); for (unsigned i = 0; i < a; ++i) x[i] = i; errno = 0; auto n = cubic_splines(x, y); CHECK("refused", errno == EINVAL && n.size() == 1 && n[0].a != n[0].a && n[0].b != n[0].b); spline s(x, y); ISNAN("NaN", s(0.5)); ISNAN("NaN", s.deriv(0.5)); if (a < 2) { std::vector<vec2> p(a); errno = 0; auto m = cubic_splines(p); CHECK("refused", errno == EINVAL && m.size() == 1 && m[0].a != m[0].a); } }
}
SECTION(spline_curves) {
	V al = {-2, 0, 1, 3.5}, ts = {0, 0.25, 0.5, 0.75, 1};
	for (real a : al) for (real b : al) for (real t : {-0.5, 0., 0.25, 0.5, 1., 1.5}) { if (!vf::begin("lerp %g %g %g", a, b, t)) continue; errno = 0;
		NEAR("lerp", lerp(a, b, t), a + t * (b - a), 1e-12, 1e-12); if (a != b) { NEAR("invlerp", invlerp(a, b, lerp(a, b, t)), t, 1e-12, 1e-12); for (real c : al) for (real d : al) NEAR("remap", remap(a, b, c, d, lerp(a, b, t)), c + t * (d - c), 1e-12, 1e-11);
			real u = t < 0 ? 0 : t > 1 ? 1 : t; NEAR("smoothstep", smoothstep(a, b, lerp(a, b, t)), u * u * (3 - 2 * u), 1e-12, 1e-12); NEAR("smootherstep", smootherstep(a, b, lerp(a, b, t)), u * u * u * (10 + u * (-15 + 6 * u)), 1e-12, 1e-12); CHECK("errno", errno == 0); }
		else { ISNAN("smoothstep", smoothstep(a, b, t)); CHECK("errno", errno == ERANGE); errno = 0; ISNAN("smootherstep", smootherstep(a, b, t)); CHECK("errno", errno == ERANGE); } }
	std::vector<vec2> pts; for (real x : {-1., 0., 2.}) for (real y : {-1., 0., 3.}) pts.push_back({x, y});
	auto bern = [](const std::vector<vec2>& c, L t, int k) { L r = 0; int n = c.size() - 1; for (int i = 0; i <= n; ++i) { L b = 1; for (int j = 1; j <= i; ++j) b = b * (n - i + j) / j; r += b * powl(1 - t, n - i) * powl(t, i) * c[i][k]; } return r; };
	std::vector<int> ix; for (int i = 0; i < 9; ++i) ix.push_back(i);
	words_upto(ix, 2, 4, [&](const std::vector<int>& w) { if (w.size() == 4 && !vf::thorough() && (w[0] > w[3])) return; std::vector<vec2> c; for (int i : w) c.push_back(pts[i]); 
		for (real t : ts) { if (!vf::begin_fast("bezier", w[0] * 1000 + w[1] * 100 + w.back() * 10 + (w.size() > 2 ? w[2] : 0), t)) continue; errno = 0; const std::vector<vec2> keep = c; vec2 b = bezier(keep, t);
			for (int k = 0; k < 2; ++k) { NEAR("bezier", b[k], bern(c, t, k), 1e-12, 1e-12); if (c.size() == 3) NEAR("quadratic_bezier", quadratic_bezier(c[0], c[1], c[2], t)[k], bern(c, t, k), 1e-12, 1e-12); if (c.size() == 4) NEAR("cubic_bezier", cubic_bezier(c[0], c[1], c[2], c[3], t)[k], bern(c, t, k), 1e-12, 1e-12); if (c.size() == 2) NEAR("vector lerp", lerp(c[0], c[1], t)[k], bern(c, t, k), 1e-12, 1e-12); }
			for (size_t i = 0; i < c.size(); ++i) CHECK("control points kept", keep[i][0] == c[i][0] && keep[i][1] == c[i][1]); CHECK("errno", errno == 0); } });
	for (real t : {-1., -0.001, 1.001, 2.}) if (vf::begin("bezier t=%g", t)) { errno = 0; vec2 b = bezier(std::vector<vec2>{{0, 0}, {1, 1}}, t); CHECK("refused", errno == EINVAL && b[0] != b[0] && b[1] != b[1]); }
	for (int n = 0; n < 2; ++n) if (vf::begin("bezier of %d points", n)) { errno = 0; vec2 b = bezier(std::vector<vec2>(n), 0.5); CHECK("refused", errno == EINVAL && b[0] != b[0] && b[1] != b[1]); }
	// spherical interpolation keeps the norm and the angle proportion for unit vectors
	for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) for (real t : ts) { L a = i * M_PIl / 6, b = j * M_PIl / 6, om = acosl(cosl(a - b)); if (!vf::begin("slerp %d %d %g", i, j, t)) continue; vec2 p = {(real) cosl(a), (real) sinl(a)}, q = {(real) cosl(b), (real) sinl(b)}; errno = 0; vec2 r = slerp(p, q, t);
		if (om < 1e-9L || om > M_PIl - 1e-9L) continue;
		NEAR("unit", r[0] * r[0] + r[1] * r[1], 1, 1e-7, 1e-7); NEAR("angle", r[0] * p[0] + r[1] * p[1], cosl(t * om), 1e-6, 1e-6); NEAR("angle", r[0] * q[0] + r[1] * q[1], cosl((1 - t) * om), 1e-6, 1e-6); CHECK("errno", errno == 0);
		vec2 m = nlerp(p, q, t); NEAR("nlerp unit", m[0] * m[0] + m[1] * m[1], 1, 1e-9, 1e-9); L mx = (1 - t) * p[0] + t * q[0], my = (1 - t) * p[1] + t * q[1], nn = sqrtl(mx * mx + my * my); NEAR("nlerp", m[0], mx / nn, 1e-9, 1e-9); NEAR("nlerp", m[1], my / nn, 1e-9, 1e-9); }
	if (vf::begin("slerp of null")) { errno = 0; vec2 r = slerp(vec2({0, 0}), vec2({1, 0}), 0.5); CHECK("refused", errno != 0 && r[0] != r[0] && r[1] != r[1]); errno = 0; r = slerp(vec2({1, 0}), vec2({0, 0}), 0.5); CHECK("refused", errno != 0 && r[0] != r[0]); }
}
VF_MAIN
