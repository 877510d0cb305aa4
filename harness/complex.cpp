// Complex numbers, quaternions and phasors: every operation word up to a depth against a long double
// model, every operand pair of an alphabet, every function on a grid of the plane.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "complex/complex.h"
#include "complex/complex_analysis.h"
#include "complex/quat.h"
#include "complex/phasor.h"
#include <complex>
using namespace theoretica;
typedef complex<real> Z; typedef std::complex<long double> W; typedef long double L;
static const double T = 1e-10;

template<class G> static void nearz(const std::string& tag, const G& g, W w, double tol = T) {
	++vf::S().checks;
	double m = 1 + (double) std::abs(w), gr = (double) g.Re(), gi = (double) g.Im();
	vf::state(vf::mix(vf::hd((float) gr), vf::hd((float) gi)));
	if (!(std::fabs(gr - (double) w.real()) <= tol * m && std::fabs(gi - (double) w.imag()) <= tol * m))
		vf::fail(tag, "got (%.17g,%.17g), expected (%.17Lg,%.17Lg)", gr, gi, w.real(), w.imag());
}
static W wz(const Z& z) { return W(z.a, z.b); }

// ---- operation words ----------------------------------------------------------------------
static const int NOP = 16;
static const char* opn[NOP] = {"+=z", "-=z", "*=z", "/=z", "+=k", "-=k", "*=k", "/=k", "invert", "conj", "neg", "square", "k-z", "k/z", "=z*z", "z/z1"};
static bool app(int o, Z& z, W& w) {
	const Z c(0.5, -1.25); const W d(0.5L, -1.25L); const real k = -1.5; const L q = -1.5L;
	bool ok = std::abs(w) > 1e-3L;
	switch (o) {
	case 0: { Z& r = (z += c); CHECK("self ref", &r == &z); w += d; break; }
	case 1: { Z& r = (z -= c); CHECK("self ref", &r == &z); w -= d; break; }
	case 2: { Z& r = (z *= c); CHECK("self ref", &r == &z); w *= d; break; }
	case 3: { Z& r = (z /= c); CHECK("self ref", &r == &z); w /= d; break; }
	case 4: { Z& r = (z += k); CHECK("self ref", &r == &z); w += q; break; }
	case 5: { Z& r = (z -= k); CHECK("self ref", &r == &z); w -= q; break; }
	case 6: { Z& r = (z *= k); CHECK("self ref", &r == &z); w *= q; break; }
	case 7: { Z& r = (z /= k); CHECK("self ref", &r == &z); w /= q; break; }
	case 8: if (!ok) return false; { Z& r = z.invert(); CHECK("self ref", &r == &z); w = W(1) / w; break; }
	case 9: z = z.conjugate(); w = std::conj(w); break;
	case 10: z = -z; w = -w; break;
	case 11: z *= z; w *= w; break;           // aliased operand
	case 12: z = k - z; w = q - w; break;
	case 13: if (!ok) return false; z = k / z; w = q / w; break;
	case 14: z = square(z); w *= w; break;
	case 15: if (!ok) return false; z /= z; w = 1; break;   // aliased operand
	}
	return std::abs(w) < 1e6L;
}
SECTION(z_words) {
	std::vector<int> ops; for (int i = 0; i < NOP; ++i) ops.push_back(i);
	for (W s : {W(0, 0), W(1, 0), W(-0.75L, 2), W(0, -3)}) for (int n = 1; n <= (vf::thorough() ? 5 : 4); ++n)
		words(ops, n, [&](const std::vector<int>& wd) {
			std::string d; for (int o : wd) { d += opn[o]; d += ' '; }
			if (!vf::begin("z0=(%Lg,%Lg): %s", s.real(), s.imag(), d.c_str())) return;
			Z z((real) s.real(), (real) s.imag()); W w = s; errno = 0;
			for (int o : wd) if (!app(o, z, w)) return;
			nearz("word", z, w, 1e-9); CHECK("word errno", errno == 0);
		});
}
static std::vector<Z> plane(std::vector<real> a) { std::vector<Z> r; for (real x : a) for (real y : a) r.push_back(Z(x, y)); return r; }
SECTION(z_pairs) {
	auto P = plane({-2, -0.5, 0, 0.25, 1, 3});
	for (auto& x : P) for (auto& y : P) {
		if (!vf::begin("(%g,%g) op (%g,%g)", x.a, x.b, y.a, y.b)) continue;
		const Z z = x, u = y; W a = wz(z), b = wz(u); errno = 0;
		nearz("+", z + u, a + b); nearz("-", z - u, a - b); nearz("*", z * u, a * b);
		nearz("z+k", z + u.a, a + b.real()); nearz("z-k", z - u.a, a - b.real()); nearz("z*k", z * u.a, a * b.real());
		nearz("k+z", u.a + z, a + b.real()); nearz("k-z", u.a - z, b.real() - a); nearz("k*z", u.a * z, a * b.real());
		nearz("unary -", -z, -a); nearz("unary +", +z, a);
		EQ("== ", z == u, a == b); EQ("!=", z != u, a != b);
		CHECK("errno", errno == 0);
		if (b != W(0)) { nearz("/", z / u, a / b); nearz("k/z", z.a / u, (L) z.a / b); nearz("inverse", u.inverse(), W(1) / b); nearz("inverse()", inverse(u), W(1) / b);
			Z t = u; t.invert(); nearz("invert", t, W(1) / b); nearz("z * z^-1", u * u.inverse(), 1); CHECK("div errno", errno == 0); }
		else { Z r = z / u; CHECK("div by zero", errno == ERANGE && r.a != r.a && r.b != r.b); errno = 0; r = u.inverse(); CHECK("inverse of zero", errno == ERANGE && r.a != r.a); errno = 0; Z t = u; t.invert(); CHECK("invert zero", errno == ERANGE && t.a != t.a && t.b != t.b); t = z; errno = 0; t /= u; CHECK("/= zero", errno == ERANGE && t.a != t.a && t.b != t.b); }
		if (u.a != 0) { errno = 0; nearz("z/k", z / u.a, a / b.real()); Z t = z; t /= u.a; nearz("z/=k", t, a / b.real()); CHECK("z/k errno", errno == 0); }
		else { errno = 0; Z r = z / u.a; CHECK("z/0", errno == ERANGE && r.a != r.a && r.b != r.b); errno = 0; Z t = z; t /= u.a; CHECK("z/=0", errno == ERANGE && t.a != t.a && t.b != t.b); }
		EQ("operand kept", z.a, x.a); EQ("operand kept", z.b, x.b); EQ("operand kept", u.a, y.a); EQ("operand kept", u.b, y.b);
		EQ("Re", z.Re(), x.a); EQ("Im", z.Im(), x.b); EQ("Re()", Re(z), x.a); EQ("Im()", Im(z), x.b);
		NEAR("sqr_norm", z.sqr_norm(), std::norm(a), T, T); NEAR("norm", z.norm(), std::abs(a), T, T); NEAR("abs", th::abs(z), std::abs(a), T, T);
		NEAR("arg", z.arg(), std::arg(a), 1e-7, 1e-7);
		nearz("conjugate", z.conjugate(), std::conj(a)); nearz("conjugate()", conjugate(z), std::conj(a)); nearz("identity", identity(z), a);
		nearz("|zw|=|z||w|", Z(th::abs(z * u), 0), W(std::abs(a) * std::abs(b)));
	}
}
// arguments of every magnitude in every direction of the plane: results within a tolerance relative to their own modulus
template<class G> static void relz(const std::string& tag, const G& g, W w, double tol, double ab = 0) { ++vf::S().checks; double m = (double) std::abs(w), gr = (double) g.Re(), gi = (double) g.Im(); vf::state(vf::mix(vf::hd((float) gr), vf::hd((float) gi))); if (!(std::fabs(gr - (double) w.real()) <= tol * m + ab && std::fabs(gi - (double) w.imag()) <= tol * m + ab)) vf::fail(tag, "got (%.17g,%.17g), expected (%.17Lg,%.17Lg)", gr, gi, w.real(), w.imag()); }
static std::vector<Z> rays(int E, int D) { std::vector<Z> r; for (int e = std::max(-E, -25); e <= E; ++e) for (int k = 0; k < D; ++k) { real m = std::ldexp(1.25, e); r.push_back(k % (D / 4) == 0 ? (k == 0 ? Z(m, 0) : k == D / 4 ? Z(0, m) : k == D / 2 ? Z(-m, 0) : Z(0, -m)) : Z(m * std::cos(2 * M_PI * k / D), m * std::sin(2 * M_PI * k / D))); } return r; }
SECTION(z_wide) {
	const W I(0, 1);
	for (auto& z : rays(vf::thorough() ? 80 : 40, vf::thorough() ? 48 : 24)) {
		if (!vf::begin("at (%g,%g)", z.a, z.b)) continue;
		const Z zc = z; W a = wz(z); errno = 0; L m = std::abs(a);
		relz("square", square(zc), a * a, 1e-14); relz("cube", cube(zc), a * a * a, 1e-14); relz("inverse", inverse(zc), W(1) / a, 1e-14); relz("inverse", zc.inverse(), W(1) / a, 1e-14); NEAR("abs", th::abs(zc), m, 1e-12, 0); NEAR("norm", zc.norm(), m, 1e-12, 0); NEAR("arg", zc.arg(), std::arg(a), 1e-7, 1e-7); relz("sqrt", th::sqrt(zc), std::sqrt(a), 1e-8);
		relz("quotient by itself", zc / zc, 1, 1e-14); relz("k/z", 3.0 / zc, 3.0L / a, 1e-14); relz("z/k", zc / 3.0, a / 3.0L, 1e-14); relz("ln", th::ln(zc), std::log(a), 1e-7, 1e-7);
		if (m < 600) relz("exp", th::exp(zc), std::exp(a), 1e-9);
		if (std::fabs(z.b) < 300 && m < 1e6L) { relz("sin", th::sin(zc), std::sin(a), 1e-8, 1e-12); relz("cos", th::cos(zc), std::cos(a), 1e-8, 1e-12); if (std::abs(std::cos(a)) > 0.01L) relz("tan", th::tan(zc), std::fabs(z.b) > 40 ? W(0, z.b > 0 ? 1 : -1) : std::tan(a), 1e-7, 1e-9); }
		CHECK("errno", errno == 0); EQ("kept", zc.a, z.a); EQ("kept", zc.b, z.b);
	}
	auto R = rays(20, 8); for (auto& x : R) for (auto& y : R) { if (std::fabs(std::log2(std::abs(wz(x)) / std::abs(wz(y)))) > (vf::thorough() ? 60 : 12)) continue; if (!vf::begin("(%g,%g) with (%g,%g)", x.a, x.b, y.a, y.b)) continue; W a = wz(x), b = wz(y); errno = 0; relz("product", x * y, a * b, 1e-14); relz("quotient", x / y, a / b, 1e-14); relz("sum", x + y, a + b, 1e-15, 1e-15 * (double) (std::abs(a) + std::abs(b))); relz("difference", x - y, a - b, 1e-15, 1e-15 * (double) (std::abs(a) + std::abs(b))); Z t = x; t *= y; relz("*=", t, a * b, 1e-14); t = x; t /= y; relz("/=", t, a / b, 1e-14); CHECK("errno", errno == 0); }
}
SECTION(z_arc_wide) {
	for (auto& z : rays(12, 24)) { if (!vf::begin("arc functions at (%g,%g)", z.a, z.b)) continue; W a = wz(z); errno = 0; L m = std::abs(a); bool cut = z.b == 0 && std::fabs(z.a) > 1; double tol = 1e-6 * std::max(1.0L, m);
		Z q = th::asin(z); if (!cut) relz("asin", q, std::asin(a), tol, tol); relz("sin asin", th::sin(q), a, 1e-4 * std::max(1.0L, m)); q = th::acos(z); if (!cut) relz("acos", q, std::acos(a), tol, tol); relz("cos acos", th::cos(q), a, 1e-4 * std::max(1.0L, m), 1e-6); if (std::abs(a - W(0, 1)) > 0.01L && std::abs(a + W(0, 1)) > 0.01L && !(z.a == 0 && std::fabs(z.b) > 1)) { q = th::atan(z); relz("atan", q, std::atan(a), 1e-6, 1e-6); } CHECK("errno", errno == 0); }
}
SECTION(z_functions) {
	std::vector<real> g; for (int i = -12; i <= 12; ++i) g.push_back(i * 0.25); g.push_back(-7.5); g.push_back(5.75);
	if (vf::thorough()) for (int i = -60; i <= 60; ++i) g.push_back(i * 0.1 + 0.013);
	for (auto& z : plane(g)) {
		if (!vf::begin("f(%g,%g)", z.a, z.b)) continue;
		const Z zc = z; W a = wz(z); errno = 0; const W I(0, 1);
		nearz("square", square(zc), a * a); nearz("cube", cube(zc), a * a * a);
		if (std::fabs(z.b) < 4) nearz("exp", th::exp(zc), std::exp(a), 1e-9);
		Z s = th::sqrt(zc); nearz("sqrt", s, std::sqrt(a), 1e-8); nearz("sqrt^2", s * s, a, 1e-8); CHECK("sqrt in the right half plane", s.a >= 0);
		nearz("sin", th::sin(zc), std::sin(a), 1e-8); nearz("cos", th::cos(zc), std::cos(a), 1e-8);
		nearz("sin^2+cos^2", Z(1, 0) * (th::sin(zc) * th::sin(zc) + th::cos(zc) * th::cos(zc)), 1, 1e-7 * (1 + std::exp(2 * std::fabs(z.b))));
		if (std::abs(std::cos(a)) > 0.01L) nearz("tan", th::tan(zc), std::tan(a), 1e-6);
		CHECK("errno", errno == 0);
		if (a != W(0)) { errno = 0; nearz("ln", th::ln(zc), std::log(a), 1e-7); CHECK("ln errno", errno == 0); nearz("exp ln", th::exp(th::ln(zc)), a, 1e-6); }
		errno = 0; Z q = th::asin(zc); nearz("asin", q, std::asin(W(z.a, z.b)), std::fabs(z.b) > 0 || std::fabs(z.a) <= 1 ? 1e-6 : 1e9);
		nearz("sin asin", th::sin(q), a, 1e-5); CHECK("asin errno", errno == 0);
		q = th::acos(zc); nearz("cos acos", th::cos(q), a, 1e-5); CHECK("acos errno", errno == 0);
		if (std::abs(a - I) > 0.01L && std::abs(a + I) > 0.01L) { q = th::atan(zc); nearz("tan atan", th::tan(q), a, 1e-5); if (z.a != 0) nearz("atan", q, std::atan(a), 1e-6); CHECK("atan errno", errno == 0); }
	}
	for (int k = -24; k <= 24; ++k) if (vf::begin("rotor %d pi/12", k)) { real t = k * PI / 12; nearz("rotor", Z::rotor(t), W(cosl(t), sinl(t))); }
	if (vf::begin("i*i")) { nearz("i", Z::i() * Z::i(), -1); Z z; nearz("default", z, 0); nearz("from real", Z(2.5), 2.5L); z = std::array<real, 2>{{3, -4}}; nearz("from array", z, W(3, -4)); Z r(2, 0); EQ("to real", (real) r, 2.0); Z n(2, 1); ISNAN("to real of a non real", (real) n); Z nn(2, -1); ISNAN("to real of a non real", (real) nn); Z n3(0, -1e-3); ISNAN("to real of a non real", (real) n3); }
	for (real x : {-2., -1., 0., 1., 3.}) for (real y : {-2., -1., 0., 1., 3.}) if (vf::begin("string %g %g", x, y)) {
		char e[64], m[32]; if (std::fabs(y) == 1) m[0] = 0; else snprintf(m, 32, "%g", std::fabs(y)); snprintf(e, 64, "%g %s %si", x, y >= 0 ? "+" : "-", m);
		std::ostringstream o; o << Z(x, y); CHECKF("stream", o.str() == e && Z(x, y).to_string() == e, "printed %s, expected %s", o.str().c_str(), e); }
}
// ---- quaternions ------------------------------------------------------------------------------
typedef quat<real> Q; struct QM { L v[4]; };
static QM qm(L a, L b, L c, L d) { QM r = {{a, b, c, d}}; return r; }
static QM mul(const QM& p, const QM& q) {      // from i j = k, j k = i, k i = j
	static const int ix[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}};
	static const int sg[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}};
	QM r = {{0, 0, 0, 0}};
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.v[ix[i][j]] += sg[i][j] * p.v[i] * q.v[j];
	return r;
}
static L n2(const QM& q) { return q.v[0] * q.v[0] + q.v[1] * q.v[1] + q.v[2] * q.v[2] + q.v[3] * q.v[3]; }
static QM inv(const QM& q) { L n = n2(q); return qm(q.v[0] / n, -q.v[1] / n, -q.v[2] / n, -q.v[3] / n); }
static void nearq(const char* tag, const Q& g, const QM& w, double tol = T) {
	++vf::S().checks; double m = 1 + (double) std::sqrt(n2(w)), v[4] = {g.Re(), g.Im1(), g.Im2(), g.Im3()}; uint64_t h = 7;
	for (int i = 0; i < 4; ++i) { h = vf::mix(h, vf::hd((float) v[i])); if (!(std::fabs(v[i] - (double) w.v[i]) <= tol * m)) { vf::fail(tag, "component %d: got %.17g, expected %.17Lg", i, v[i], w.v[i]); return; } }
	vf::state(h);
}
SECTION(q_pairs) {
	std::vector<real> al = {-1.5, 0, 2};
	words(al, 4, [&](const std::vector<real>& x) { words(al, 4, [&](const std::vector<real>& y) {
		if (!vf::begin("q %s op %s", show(x).c_str(), show(y).c_str())) return;
		const Q p(x[0], x[1], x[2], x[3]), q(y[0], y[1], y[2], y[3]); QM a = qm(x[0], x[1], x[2], x[3]), b = qm(y[0], y[1], y[2], y[3]); errno = 0;
		auto lin = [&](L s, L t) { return qm(s * a.v[0] + t * b.v[0], s * a.v[1] + t * b.v[1], s * a.v[2] + t * b.v[2], s * a.v[3] + t * b.v[3]); };
		nearq("+", p + q, lin(1, 1)); nearq("-", p - q, lin(1, -1)); nearq("*", p * q, mul(a, b)); nearq("neg", -p, lin(-1, 0)); nearq("pos", +p, a);
		Q t = p; nearq("+=", t += q, lin(1, 1)); nearq("+= self", t, lin(1, 1)); t = p; t -= q; nearq("-=", t, lin(1, -1)); t = p; t *= q; nearq("*=", t, mul(a, b)); t = p; t *= t; nearq("*= itself", t, mul(a, a));
		nearq("conjugate", p.conjugate(), qm(x[0], -x[1], -x[2], -x[3])); NEAR("sqr_norm", p.sqr_norm(), n2(a), T, T); NEAR("norm", p.norm(), sqrtl(n2(a)), T, T); NEAR("|pq|", (p * q).norm(), sqrtl(n2(a) * n2(b)), T, T);
		real k = y[0]; nearq("q+k", p + k, qm(a.v[0] + k, a.v[1], a.v[2], a.v[3])); nearq("q-k", p - k, qm(a.v[0] - k, a.v[1], a.v[2], a.v[3])); nearq("q*k", p * k, lin(k, 0)); nearq("k+q", k + p, qm(a.v[0] + k, a.v[1], a.v[2], a.v[3])); nearq("k-q", k - p, qm(k - a.v[0], -a.v[1], -a.v[2], -a.v[3])); nearq("k*q", k * p, lin(k, 0)); t = p; t *= k; nearq("*=k", t, lin(k, 0));
		{ Q e; nearq("default", e, qm(0, 0, 0, 0)); e = std::array<real, 4>{{x[0], x[1], x[2], x[3]}}; nearq("from array", e, a); Q f(e); nearq("copy", f, a); nearq("from real", Q(y[0]), qm(y[0], 0, 0, 0)); }
		EQ("Re()", Re(p), x[0]); EQ("Im1()", Im1(p), x[1]); EQ("Im2()", Im2(p), x[2]); EQ("Im3()", Im3(p), x[3]);
		CHECK("errno", errno == 0);
		if (k != 0) { nearq("q/k", p / k, lin(1.0L / k, 0)); t = p; t /= k; nearq("/=k", t, lin(1.0L / k, 0)); } else { errno = 0; t = p / k; CHECK("q/0", errno == ERANGE && t.a != t.a); errno = 0; t = p; t /= k; CHECK("q/=0", errno == ERANGE && t.a != t.a); }
		errno = 0;
		if (n2(b) > 0) { nearq("/", p / q, mul(a, inv(b))); t = p; t /= q; nearq("/=", t, mul(a, inv(b))); nearq("inverse", q.inverse(), inv(b)); t = q; nearq("invert", t.invert(), inv(b)); nearq("invert self", t, inv(b)); nearq("k/q", x[0] / q, mul(qm(x[0], 0, 0, 0), inv(b))); nearq("q*q^-1", q * q.inverse(), qm(1, 0, 0, 0)); CHECK("div errno", errno == 0); }
		else { t = p / q; CHECK("q / zero", errno == ERANGE && t.a != t.a); errno = 0; t = q.inverse(); CHECK("inverse zero", errno == ERANGE && t.a != t.a); errno = 0; t = q; t.invert(); CHECK("invert zero", errno == ERANGE && t.a != t.a); }
		// rotations: p v p^-1
		if (n2(a) > 0) { vec<real, 3> v = {y[1], y[2], y[3]}; vec<real, 3> r = p.transform(v); QM w = mul(mul(a, qm(0, y[1], y[2], y[3])), inv(a)); for (int i = 0; i < 3; ++i) NEAR("transform", r[i], w.v[i + 1], T, T); vec<real> vd(3); for (int i = 0; i < 3; ++i) vd[i] = v[i]; vec<real> rd = p.transform(vd); for (int i = 0; i < 3; ++i) NEAR("transform dynamic", rd[i], w.v[i + 1], T, T); }
	}); });
}
SECTION(q_rotation) {
	std::vector<real> al = {-2, 0, 1};
	words(al, 3, [&](const std::vector<real>& ax) { words(al, 3, [&](const std::vector<real>& v) { for (int k = -12; k <= 12; ++k) {
		if (ax[0] == 0 && ax[1] == 0 && ax[2] == 0) continue;
		if (!vf::begin("rotate %s around %s by %d pi/6", show(v).c_str(), show(ax).c_str(), k)) continue;
		real t = k * PI / 6; L n = sqrtl(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]), u[3] = {ax[0] / n, ax[1] / n, ax[2] / n}, d = 0; for (int i = 0; i < 3; ++i) d += u[i] * v[i];
		L cr[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
		vec<real, 3> V = {v[0], v[1], v[2]}, A = {ax[0], ax[1], ax[2]}; errno = 0;
		vec<real, 3> r = Q::rotate(V, t, A); Q q = Q::rotation(t, A); vec<real, 3> s = q.transform(V); NEAR("unit", q.norm(), 1, T, T); CHECK("errno", errno == 0);
		for (int i = 0; i < 3; ++i) { L w = v[i] * cosl(t) + cr[i] * sinl(t) + u[i] * d * (1 - cosl(t)); NEAR("rotate", r[i], w, 1e-9, 1e-9); NEAR("rotation.transform", s[i], w, 1e-9, 1e-9); }
	} }); });
	for (unsigned n = 0; n <= 5; ++n) for (unsigned m = 0; m <= 5; ++m) { if (n == 3 && m == 3) continue; if (!vf::begin("sizes %u %u", n, m)) continue; vec<real> v(n, 1.0), a(m, 1.0); errno = 0; vec<real> r = Q::rotate(v, 1.0, a); CHECK("rotate size", errno == EINVAL && r[0] != r[0]); if (n != 3) { errno = 0; r = Q(1, 2, 3, 4).transform(v); CHECK("transform size", errno == EINVAL && r[0] != r[0]); } }
}
// the same algebra at every magnitude (quaternions and phasors are homogeneous: powers of two scale exactly)
static void relq(const char* tag, const Q& g, QM w, L tol) { ++vf::S().checks; L m = sqrtl(n2(w)); L d = fabsl(g.a - w.v[0]) + fabsl(g.b - w.v[1]) + fabsl(g.c - w.v[2]) + fabsl(g.d - w.v[3]); if (!(d <= tol * m)) vf::fail(tag, "(%g,%g,%g,%g) differs by %Lg of %Lg", g.a, g.b, g.c, g.d, d, m); }
SECTION(q_wide) {
	std::vector<real> al = {-1.25, 0.5, 3}; for (int e = -22; e <= 40; e += 2) for (int f : {-22, -3, 0, 17, 40}) words(al, 4, [&](const std::vector<real>& x) { std::vector<real> y = {x[2], x[0], x[3], x[1]}; if (!vf::begin("q %s 2^%d with %s 2^%d", show(x).c_str(), e, show(y).c_str(), f)) return; Q p(std::ldexp(x[0], e), std::ldexp(x[1], e), std::ldexp(x[2], e), std::ldexp(x[3], e)), q(std::ldexp(y[0], f), std::ldexp(y[1], f), std::ldexp(y[2], f), std::ldexp(y[3], f)); QM a = qm(p.a, p.b, p.c, p.d), b = qm(q.a, q.b, q.c, q.d); errno = 0;
		relq("product", p * q, mul(a, b), 1e-14L); relq("quotient", p / q, mul(a, inv(b)), 1e-13L); relq("inverse", p.inverse(), inv(a), 1e-13L); NEAR("norm", p.norm(), sqrtl(n2(a)), 1e-13, 0); Q t = p; t *= q; relq("*=", t, mul(a, b), 1e-14L); t = p; t /= q; relq("/=", t, mul(a, inv(b)), 1e-13L); vec<real, 3> v = {x[1], x[3], -x[0]}, r = p.transform(v); QM w = mul(mul(a, qm(0, v[0], v[1], v[2])), inv(a)); for (int i = 0; i < 3; ++i) NEAR("transform", r[i], w.v[i + 1], 1e-11, 1e-11); CHECK("errno", errno == 0); });
	// axes of any length, angles of any size
	for (int e = -20; e <= 20; e += 4) for (real t : {1e-6, 0.001, 0.5, 3.0, 10.0, 100.0, -40.0}) words<real>({-2, 0, 1}, 3, [&](const std::vector<real>& ax) { if (ax[0] == 0 && ax[1] == 0 && ax[2] == 0) return; if (!vf::begin("axis %s 2^%d angle %g", show(ax).c_str(), e, t)) return; L n = sqrtl(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]), u[3] = {ax[0] / n, ax[1] / n, ax[2] / n}, v[3] = {1, -3, 2}, d = 0; for (int i = 0; i < 3; ++i) d += u[i] * v[i]; L cr[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; vec<real, 3> V = {1, -3, 2}, A = {std::ldexp(ax[0], e), std::ldexp(ax[1], e), std::ldexp(ax[2], e)}; errno = 0; auto r = Q::rotate(V, t, A); CHECK("errno", errno == 0); for (int i = 0; i < 3; ++i) NEAR("rotate", r[i], v[i] * cosl(t) + cr[i] * sinl(t) + u[i] * d * (1 - cosl(t)), 1e-9, 1e-9); });
}
// ---- phasors --------------------------------------------------------------------------------
SECTION(p_words) {
	static const char* nm[10] = {"+=", "-=", "*=", "/=", "inv", "conj", "k-p", "p*z", "z*p", "k/p"};
	std::vector<int> ops; for (int i = 0; i < 10; ++i) ops.push_back(i);
	std::vector<std::pair<double, double>> al = {{1, 0}, {2, 0}, {0.5, PI / 3}, {3, PI}, {1.5, -2.5}};
	for (auto s : al) for (auto o : al) for (int n = 1; n <= (vf::thorough() ? 4 : 3); ++n) words(ops, n, [&](const std::vector<int>& wd) {
		std::string d; for (int x : wd) { d += nm[x]; d += ' '; }
		if (!vf::begin("phasor %g/%g with %g/%g: %s", s.first, s.second, o.first, o.second, d.c_str())) return;
		phasor<real> p(s.first, s.second), q(o.first, o.second); W a = std::polar<L>(s.first, s.second), b = std::polar<L>(o.first, o.second);
		const Z z(-1, 0.5); const W zw(-1, 0.5L); const real k = -2.5;
		for (int x : wd) {
			if ((x == 4 || x == 9) && std::abs(a) < 1e-3L) return;
			errno = 0;
			switch (x) {
			case 0: { phasor<real> c = p + q; p += q; a += b; nearz("+", c, a, 1e-7); NEAR("+ modulus", c.norm(), std::abs(a), 1e-7, 1e-7); break; }
			case 1: { phasor<real> c = p - q; p -= q; a -= b; nearz("-", c, a, 1e-7); NEAR("- modulus", c.norm(), std::abs(a), 1e-7, 1e-7); break; }
			case 2: { phasor<real> c = p * q; p *= q; a *= b; nearz("*", c, a, 1e-7); NEAR("* modulus", c.norm(), std::abs(a), 1e-7, 1e-7); break; }
			case 3: { phasor<real> c = p / q; p /= q; a /= b; nearz("/", c, a, 1e-7); NEAR("/ modulus", c.norm(), std::abs(a), 1e-7, 1e-7); break; }
			case 4: { phasor<real> c = p.inverse(); p.invert(); a = W(1) / a; nearz("inverse", c, a, 1e-7); break; }
			case 5: p = p.conjugate(); a = std::conj(a); break;
			case 6: p = k - p; a = (L) k - a; break;
			case 7: p = p * z; a *= zw; break;
			case 8: p = z * p; a *= zw; break;
			case 9: p = k / p; a = (L) k / a; break;
			}
			if (std::abs(a) > 1e5L) return;
			nearz(nm[x], p, a, 1e-7); CHECK("errno", errno == 0);
			NEAR("norm", p.norm(), std::abs(a), 1e-7, 1e-7); NEAR("sqr_norm", p.sqr_norm(), std::norm(a), 1e-7, 1e-7);
			nearz("to_complex", p.to_complex(), a, 1e-7); Z cast = p; nearz("cast", cast, a, 1e-7);
			NEAR("Re()", Re(p), a.real(), 1e-6, 1e-6); NEAR("Im()", Im(p), a.imag(), 1e-6, 1e-6);
		}
	});
}
SECTION(p_basic) {
	for (auto& z : plane({-3, -1, 0, 0.5, 2})) { if (!vf::begin("phasor of (%g,%g)", z.a, z.b)) continue;
		phasor<real> p(z); nearz("from complex", p, wz(z), 1e-7); NEAR("arg", p.arg(), std::arg(wz(z)), 1e-7, 1e-7); CHECK("modulus >= 0", p.norm() >= 0);
		if (z.b == 0) { phasor<real> r(z.a); nearz("from real", r, wz(z), 1e-7); CHECK("modulus >= 0", r.norm() >= 0); for (auto& y : plane({-3, 0, 2})) { phasor<real> q(y); nearz("k+p", z.a + q, wz(y) + (L) z.a, 1e-7); nearz("k*p", z.a * q, wz(y) * (L) z.a, 1e-7); } }
		if (z.a == 0 && z.b == 0) { errno = 0; phasor<real> r = p.inverse(); CHECK("inverse zero", errno == ERANGE && r.modulus != r.modulus); errno = 0; r = phasor<real>(2, 1) / p; CHECK("div zero", errno == ERANGE && r.modulus != r.modulus); errno = 0; r = phasor<real>(2, 1); r /= p; CHECK("/= zero", errno == ERANGE && r.modulus != r.modulus); errno = 0; r = p; r.invert(); CHECK("invert zero", errno == ERANGE && r.modulus != r.modulus); }
	}
	for (int k = -24; k <= 24; ++k) if (vf::begin("p rotor %d", k)) { real t = k * PI / 12; nearz("rotor", phasor<real>::rotor(t), W(cosl(t), sinl(t)), 1e-9); phasor<real> a(2, t), b(2, t), c(1, t); CHECK("==", a == b && !(a != b) && a != c && !(a == c)); }
	if (vf::begin("p i")) { nearz("i", phasor<real>::i() * phasor<real>::i(), -1, 1e-9); phasor<real> p; nearz("default", p, 0); p = std::array<real, 2>{{2, PI / 2}}; nearz("array", p, W(0, 2), 1e-9); }
}
SECTION(p_wide) {
	for (int e = -24; e <= 40; e += 2) for (int k = -16; k <= 16; ++k) for (int f : {-20, 0, 33}) for (int l : {-9, -4, 0, 2, 8, 13}) { if (!vf::begin("2^%d at %d pi/8 with 2^%d at %d pi/8", e, k, f, l)) continue; real a = k * PI / 8, b = l * PI / 8; phasor<real> p(std::ldexp(1.5, e), a), q(std::ldexp(1.25, f), b); W x = std::polar<L>(ldexpl(1.5L, e), a), y = std::polar<L>(ldexpl(1.25L, f), b); errno = 0;
		relz("product", p * q, x * y, 1e-12); relz("quotient", p / q, x / y, 1e-12); relz("inverse", p.inverse(), W(1) / x, 1e-12); double big = 1e-7 * (double) (std::abs(x) + std::abs(y)); relz("sum", p + q, x + y, 1e-7, big); relz("difference", p - q, x - y, 1e-7, big); relz("to_complex", p.to_complex(), x, 1e-12); phasor<real> z(Z((real) x.real(), (real) x.imag())); relz("from complex", z, x, 1e-7); NEAR("modulus", z.norm(), std::abs(x), 1e-12, 0); phasor<real> t = p; t += q; relz("+=", t, x + y, 1e-7, big); t = p; t -= q; relz("-=", t, x - y, 1e-7, big); t = p; t *= q; relz("*=", t, x * y, 1e-12); t = p; t /= q; relz("/=", t, x / y, 1e-12); CHECK("errno", errno == 0); }
}
SECTION(z_sqrt_scaled) { // sqrt(4^k z) = 2^k sqrt(z)
	for (int k = -240; k <= 240; k += vf::thorough() ? 1 : 5) for (int i = 0; i < 24; ++i) { real t = 2 * M_PI * i / 24, m = std::ldexp(1.0, 2 * k), r = std::ldexp(1.0, k); complex<> z(std::cos(t), std::sin(t)), w(z.Re() * m, z.Im() * m); if (!vf::begin("square root of exp(i %g) times 4^%d", t, k)) continue; errno = 0; std::complex<long double> e = std::sqrt(std::complex<long double>(z.Re(), z.Im())); complex<> s = sqrt(w); NEAR("real part", s.Re() / r, e.real(), 1e-7, 1e-8); NEAR("imaginary part", s.Im() / r, e.imag(), 1e-7, 1e-8); CHECK("no error", errno == 0); }
}
SECTION(z_ln_scaled) { // the logarithm of the modulus at every magnitude
	for (int e = -500; e <= 500; e += vf::thorough() ? 1 : 3) for (int i = 0; i < 16; ++i) { real t = 2 * M_PI * i / 16 + 0.1; complex<> z(std::ldexp(std::cos(t), e), std::ldexp(std::sin(t), e)); if (!vf::begin("logarithm of exp(i %g) times 2^%d", t, e)) continue; errno = 0; NEAR("real part", ln(z).Re(), 0.5L * logl((L) z.Re() * z.Re() + (L) z.Im() * z.Im()), 1e-9, 1e-9); NEAR("modulus", th::abs(z), std::hypot(z.Re(), z.Im()), 1e-10, 0); CHECK("no error", errno == 0); }
}
SECTION(p_close) { // phases which differ by little, moduli which are small
	for (int k = 0; k <= 44; ++k) for (int sg : {-1, 1}) for (int l = -12; l <= 12; ++l) for (real m : {0.75, 2.0, 5.5}) { real a = l * PI / 6 + 0.01, b = a + sg * std::ldexp(1.0, -k); if (!vf::begin("2/%g with %g at a distance of %d 2^-%d", a, m, sg, k)) continue; phasor<real> p(2, a), q(m, b); W x = std::polar<L>(2, a), y = std::polar<L>(m, b); errno = 0;
		phasor<real> r = p + q; relz("sum", r, x + y, 0, 3e-7); NEAR("modulus", r.norm(), std::abs(x + y), 1e-8, 0); r = p - q; relz("difference", r, x - y, 0, 3e-7); NEAR("modulus", r.norm(), std::abs(x - y), 1e-8, 1e-13); r = p; r += q; relz("+=", r, x + y, 0, 3e-7); r = p; r -= q; relz("-=", r, x - y, 0, 3e-7); CHECK("no error", errno == 0); }
	for (int e = -50; e <= 500; e += 5) if (vf::begin("inverse of modulus 2^%d", e)) { phasor<real> p(std::ldexp(1.5, e), 0.7); errno = 0; phasor<real> r = p.inverse(); NEAR("inverse", r.norm(), 1 / ldexpl(1.5L, e), 1e-14, 0); NEAR("phase", r.arg(), -0.7, 1e-14, 0); phasor<real> s = p; s.invert(); NEAR("invert", s.norm(), r.norm(), 1e-14, 0); r = phasor<real>(3, 0.2) / p; NEAR("quotient", r.norm(), 3 / ldexpl(1.5L, e), 1e-14, 0); s = phasor<real>(3, 0.2); s /= p; NEAR("/=", s.norm(), r.norm(), 1e-14, 0); NEAR("phase", s.arg(), -0.5, 1e-13, 0); CHECK("no error", errno == 0); }
}
VF_MAIN
