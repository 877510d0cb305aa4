// Automatic differentiation: every expression word up to a depth over the operation alphabet is
// evaluated on the library's dual types and on an independent second-order jet in long double.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "autodiff/autodiff.h"
#include "autodiff/dual_functions.h"
#include "autodiff/dual2_functions.h"
#include "autodiff/multidual_functions.h"
using namespace theoretica;
typedef long double L;
struct J { L a, b[3], c; };      // value, gradient, second derivative along b[0]
static J cst(L x) { return J{x, {0, 0, 0}, 0}; }
static J chain(const J& x, L f, L d, L d2) { J r; r.a = f; for (int i = 0; i < 3; ++i) r.b[i] = d * x.b[i]; r.c = d2 * x.b[0] * x.b[0] + d * x.c; return r; }
static J operator+(const J& x, const J& y) { J r; r.a = x.a + y.a; for (int i = 0; i < 3; ++i) r.b[i] = x.b[i] + y.b[i]; r.c = x.c + y.c; return r; }
static J operator*(const J& x, const J& y) { J r; r.a = x.a * y.a; for (int i = 0; i < 3; ++i) r.b[i] = x.a * y.b[i] + y.a * x.b[i]; r.c = x.a * y.c + 2 * x.b[0] * y.b[0] + x.c * y.a; return r; }
static J neg(const J& x) { return cst(-1) * x; }
static J inv(const J& x) { return chain(x, 1 / x.a, -1 / (x.a * x.a), 2 / (x.a * x.a * x.a)); }
static J jpow(const J& x, int n) { L v = 1, d = 0, e = 0; auto p = [&](int k) { return k == 0 ? 1.0L : powl(x.a, k); }; v = p(n); if (n != 0) d = n * p(n - 1); if (n != 0 && n != 1) e = (L) n * (n - 1) * p(n - 2); return chain(x, v, d, e); }

enum { ADDX, SUBX, MULX, DIVX, RADDX, PADDX, PSUBX, PMULX, PDIVX, ADDK, SUBK, MULK, DIVK, KADD, KSUB, KMUL, KDIV, PADDK, PSUBK, PMULK, PDIVK, NEG, POS, CONJ2, INV, SELFMUL, SELFDIV, SQ, CUBE, POW0, POW1, POW2, POW5, POWM1, POWM3, SQRT, SIN, COS, TAN, COT, EXP, LN, LOG2, LOG10, ABS, ASIN, ACOS, ATAN, SINH, COSH, TANH, NOPS };
static const char* nm[NOPS] = {"+x", "-x", "*x", "/x", "x+", "+=x", "-=x", "*=x", "/=x", "+k", "-k", "*k", "/k", "k+", "k-", "k*", "k/", "+=k", "-=k", "*=k", "/=k", "neg", "pos", "conj2", "inverse", "*=self", "/=self", "square", "cube", "pow0", "pow1", "pow2", "pow5", "pow-1", "pow-3", "sqrt", "sin", "cos", "tan", "cot", "exp", "ln", "log2", "log10", "abs", "asin", "acos", "atan", "sinh", "cosh", "tanh"};
static const real K = -1.75;

// apply to the reference; false when outside of the domain or badly conditioned there
static L EPS = 0.05L, CAPX = 8, CAPM = 1e5L, EDGE = 0.95L, EPST = 0.05L;
static bool ref(int o, J& y, const J& x) {
	L a = y.a; const L k = K; const L eps = EPS;
	switch (o) {
	case ADDX: case RADDX: case PADDX: y = y + x; break;
	case SUBX: case PSUBX: y = y + neg(x); break;
	case MULX: case PMULX: y = y * x; break;
	case DIVX: case PDIVX: if (fabsl(x.a) < eps) return false; y = y * inv(x); break;
	case ADDK: case KADD: case PADDK: y = y + cst(k); break;
	case SUBK: case PSUBK: y = y + cst(-k); break;
	case KSUB: y = cst(k) + neg(y); break;
	case MULK: case KMUL: case PMULK: y = y * cst(k); break;
	case DIVK: case PDIVK: y = y * cst(1 / k); break;
	case KDIV: if (fabsl(a) < eps) return false; y = cst(k) * inv(y); break;
	case NEG: y = neg(y); break; case POS: case CONJ2: break;
	case INV: if (fabsl(a) < eps) return false; y = inv(y); break;
	case SELFMUL: case SQ: case POW2: y = y * y; break;
	case SELFDIV: if (fabsl(a) < eps) return false; y = cst(1); break;
	case CUBE: y = y * y * y; break;
	case POW0: y = cst(1); break; case POW1: break; case POW5: y = jpow(y, 5); break;
	case POWM1: if (fabsl(a) < eps) return false; y = inv(y); break;
	case POWM3: if (fabsl(a) < eps) return false; y = jpow(y, -3); break;
	case SQRT: if (a < eps) return false; y = chain(y, sqrtl(a), 0.5L / sqrtl(a), -0.25L / (a * sqrtl(a))); break;
	case SIN: y = chain(y, sinl(a), cosl(a), -sinl(a)); break;
	case COS: y = chain(y, cosl(a), -sinl(a), -cosl(a)); break;
	case TAN: if (fabsl(cosl(a)) < EPST) return false; { L t = tanl(a), s = 1 + t * t; y = chain(y, t, s, 2 * t * s); } break;
	case COT: if (fabsl(sinl(a)) < EPST) return false; { L t = 1 / tanl(a), s = 1 + t * t; y = chain(y, t, -s, 2 * t * s); } break;
	case EXP: if (a > CAPX || a < -600) return false; y = chain(y, expl(a), expl(a), expl(a)); break;
	case LN: if (a < eps) return false; y = chain(y, logl(a), 1 / a, -1 / (a * a)); break;
	case LOG2: if (a < eps) return false; y = chain(y, log2l(a), 1 / a / M_LN2l, -1 / (a * a) / M_LN2l); break;
	case LOG10: if (a < eps) return false; y = chain(y, log10l(a), 1 / a / M_LN10l, -1 / (a * a) / M_LN10l); break;
	case ABS: if (fabsl(a) < 1e-9L && EPS > 0.01L) return false; { L s = a > 0 ? 1 : -1; y = chain(y, fabsl(a), s, 0); } break;
	case ASIN: if (fabsl(a) > EDGE) return false; { L r = sqrtl((1 - a) * (1 + a)); y = chain(y, asinl(a), 1 / r, a / (r * r * r)); } break;
	case ACOS: if (fabsl(a) > EDGE) return false; { L r = sqrtl((1 - a) * (1 + a)); y = chain(y, acosl(a), -1 / r, -a / (r * r * r)); } break;
	case ATAN: { L r = 1 + a * a; y = chain(y, atanl(a), 1 / r, -2 * a / (r * r)); } break;
	case SINH: if (fabsl(a) > CAPX) return false; y = chain(y, sinhl(a), coshl(a), sinhl(a)); break;
	case COSH: if (fabsl(a) > CAPX) return false; y = chain(y, coshl(a), sinhl(a), coshl(a)); break;
	case TANH: if (fabsl(a) > CAPX) return false; { L t = tanhl(a), s = 1 / (coshl(a) * coshl(a)); y = chain(y, t, s, -2 * t * s); } break;
	}
	L m = fabsl(y.a) + fabsl(y.b[0]) + fabsl(y.b[1]) + fabsl(y.b[2]) + fabsl(y.c);
	return m < CAPM;
}
template<class D> struct Hyp { static void ap(int o, D& y) { if (o == SINH) y = th::sinh(y); else if (o == COSH) y = th::cosh(y); else y = th::tanh(y); } static const bool has = true; };
template<> struct Hyp<dual2> { static void ap(int, dual2&) {} static const bool has = false; };
template<class D> static void act(int o, D& y, const D& x) {
	switch (o) {
	case ADDX: y = y + x; break; case RADDX: y = x + y; break; case SUBX: y = y - x; break; case MULX: y = y * x; break; case DIVX: y = y / x; break;
	case PADDX: { D& r = (y += x); CHECK("self", &r == &y); } break; case PSUBX: { D& r = (y -= x); CHECK("self", &r == &y); } break;
	case PMULX: { D& r = (y *= x); CHECK("self", &r == &y); } break; case PDIVX: { D& r = (y /= x); CHECK("self", &r == &y); } break;
	case ADDK: y = y + K; break; case SUBK: y = y - K; break; case MULK: y = y * K; break; case DIVK: y = y / K; break;
	case KADD: y = K + y; break; case KSUB: y = K - y; break; case KMUL: y = K * y; break; case KDIV: y = K / y; break;
	case PADDK: y += K; break; case PSUBK: y -= K; break; case PMULK: y *= K; break; case PDIVK: y /= K; break;
	case NEG: y = -y; break; case POS: y = +y; break; case CONJ2: y = conjugate(y.conjugate()); break; case INV: y = y.inverse(); break;
	case SELFMUL: y *= y; break; case SELFDIV: y /= y; break;
	case SQ: y = square(y); break; case CUBE: y = cube(y); break;
	case POW0: y = pow(y, 0); break; case POW1: y = pow(y, 1); break; case POW2: y = pow(y, 2); break; case POW5: y = pow(y, 5); break; case POWM1: y = pow(y, -1); break; case POWM3: y = pow(y, -3); break;
	case SQRT: y = sqrt(y); break; case SIN: y = sin(y); break; case COS: y = cos(y); break; case TAN: y = tan(y); break; case COT: y = cot(y); break;
	case EXP: y = exp(y); break; case LN: y = ln(y); break; case LOG2: y = log2(y); break; case LOG10: y = log10(y); break; case ABS: y = abs(y); break;
	case ASIN: y = asin(y); break; case ACOS: y = acos(y); break; case ATAN: y = atan(y); break;
	default: Hyp<D>::ap(o, y);
	}
}
static double TOL = 1e-7;   // loosened when a low-accuracy inverse function (minimax, ~1e-8) feeds later operations
static void cmp(const std::string& tag, double g, L w, L scale) { ++vf::S().checks; vf::state(vf::mix(vf::hd((float) g), std::hash<std::string>()(tag))); if (!(std::fabs(g - (double) w) <= TOL * (1 + (double) scale))) vf::fail(tag, "got %.17g, expected %.17Lg", g, w); }
static void look(const std::string& t, const dual& d, const J& r) { cmp(t + " value", d.Re(), r.a, fabsl(r.a)); cmp(t + " derivative", d.Dual(), r.b[0], fabsl(r.b[0])); }
static void look(const std::string& t, const dual2& d, const J& r) { cmp(t + " value", d.Re(), r.a, fabsl(r.a)); cmp(t + " derivative", d.Dual1(), r.b[0], fabsl(r.b[0])); cmp(t + " second derivative", d.Dual2(), r.c, fabsl(r.c)); }
template<unsigned N> static void look(const std::string& t, const multidual<N>& d, const J& r) { cmp(t + " value", d.Re(), r.a, fabsl(r.a)); CHECK(t + " size", d.Dual().size() == 3 && d.size() == 3); L m = fabsl(r.b[0]) + fabsl(r.b[1]) + fabsl(r.b[2]); for (int i = 0; i < 3; ++i) cmp(t + " partial", d.Dual()[i], r.b[i], m); }
static void make(dual& d, const J& j) { d = dual((real) j.a, (real) j.b[0]); }
static void make(dual2& d, const J& j) { d = dual2((real) j.a, (real) j.b[0], (real) j.c); }
template<unsigned N> static void make(multidual<N>& d, const J& j) { vec<real, N> v; v.resize(3); for (int i = 0; i < 3; ++i) v[i] = (real) j.b[i]; d = multidual<N>((real) j.a, v); }

template<class D> static void run(const char* ty, int depth, const std::vector<J>& starts, const std::vector<J>& xs) {
	std::vector<int> ops; for (int i = 0; i < NOPS; ++i) if (Hyp<D>::has || (i != SINH && i != COSH && i != TANH)) ops.push_back(i);
	for (auto& s : starts) for (auto& xj : xs) for (int n = 1; n <= depth; ++n) words(ops, n, [&](const std::vector<int>& w) {
		bool usesx = false; for (int o : w) usesx |= o <= PDIVX; if (!usesx && &xj != &xs[0]) return;
		J r = s; for (int o : w) if (!ref(o, r, xj)) return;
		std::string d; for (int o : w) { d += nm[o]; d += ' '; }
		if (!vf::begin("%s y0=(%Lg;%Lg,%Lg,%Lg;%Lg) x=(%Lg;%Lg): %s", ty, s.a, s.b[0], s.b[1], s.b[2], s.c, xj.a, xj.b[0], d.c_str())) return;
		D y, x; make(y, s); make(x, xj); const D x0 = x; errno = 0;
		for (int o : w) act(o, y, x);
		TOL = 1e-7; for (size_t i = 0; i + 1 < w.size(); ++i) if (w[i] == ATAN || w[i] == ASIN || w[i] == ACOS) TOL = 1e-3;
		look(nm[w.back()], y, r); CHECK("no error in the domain", errno == 0);
		CHECK("operand kept", x == x0);
	});
}
static std::vector<J> ST() { return {J{0.5L, {1, 0, 2}, 0}, J{-1.25L, {1, -3, 0.5L}, 0}, J{0, {2, 1, -1}, 0.75L}, J{2.5L, {-0.5L, 0, 4}, -1.5L}}; }
static std::vector<J> XS() { return {J{0.75L, {1, 2, 0}, 0}, J{-2, {-1.5L, 0, 1}, 0.5L}}; }
static std::vector<J> XS1() { return {J{0.75L, {1, 2, 0}, 0}}; }
SECTION(d1_words) { run<dual>("dual", 2, ST(), XS()); run<dual>("dual", 3, {ST()[0]}, XS1()); }
SECTION(d1_deep) { if (vf::thorough()) run<dual>("dual", 3, ST(), XS()); }
SECTION(d2_words) { run<dual2>("dual2", 2, ST(), XS()); run<dual2>("dual2", 3, {ST()[3]}, XS1()); }
SECTION(d2_deep) { if (vf::thorough()) run<dual2>("dual2", 3, ST(), XS()); }
SECTION(md_words_static) { run<multidual<3>>("multidual<3>", 2, ST(), XS()); if (vf::thorough()) run<multidual<3>>("multidual<3>", 3, ST(), XS1()); }
SECTION(md_words_dynamic) { run<multidual<0>>("multidual<>", 2, ST(), XS()); if (vf::thorough()) run<multidual<0>>("multidual<>", 3, {ST()[3]}, XS1()); }

// ---- domain errors and the remaining interface ----------------------------------------------------
template<class D> static bool allnan(const D& d);
template<> bool allnan(const dual& d) { return d.a != d.a && d.b != d.b; }
template<> bool allnan(const dual2& d) { return d.a != d.a && d.b != d.b && d.c != d.c; }
template<> bool allnan(const multidual<3>& d) { bool r = d.Re() != d.Re() && d.size() == 3; for (unsigned i = 0; i < d.size(); ++i) r = r && d.Dual()[i] != d.Dual()[i]; return r; }
template<> bool allnan(const multidual<0>& d) { bool r = d.Re() != d.Re() && d.size() == 3; for (unsigned i = 0; i < d.size(); ++i) r = r && d.Dual()[i] != d.Dual()[i]; return r; }
template<class D> static void domain(const char* ty) {
	struct E { int op; L a; }; std::vector<E> es = {{SQRT, 0}, {SQRT, -2}, {LN, 0}, {LN, -1}, {LOG2, 0}, {LOG2, -3}, {LOG10, 0}, {LOG10, -0.5L}, {ASIN, 1}, {ASIN, 1.5L}, {ASIN, -1}, {ASIN, -2}, {ACOS, 1}, {ACOS, 2}, {ACOS, -1}, {ACOS, -1.5L}, {INV, 0}, {COT, 0}};
	for (auto& e : es) for (L b : {1.0L, -2.5L}) { if (!vf::begin("%s %s at %Lg", ty, nm[e.op], e.a)) continue; D y, x; make(y, J{e.a, {b, 1, 2}, 1}); make(x, XS()[0]); errno = 0; act(e.op, y, x); CHECKF(std::string(nm[e.op]) + " outside of the domain", errno != 0 && allnan(y), "errno=%d", errno); }
}
SECTION(d1_domain) { domain<dual>("dual"); }
SECTION(d2_domain) { domain<dual2>("dual2"); }
SECTION(md_domain) { domain<multidual<3>>("multidual<3>"); domain<multidual<0>>("multidual<>"); 
	for (real z : {0.0}) { if (vf::begin("multidual division by zero")) { multidual<3> a(2, {1, 2, 3}), b(z, {1, 1, 1}); errno = 0; CHECK("a/0", allnan(a / b) && errno == ERANGE); errno = 0; multidual<0> c(2, vec<real>({1, 2, 3})), d(z, vec<real>({1, 1, 1})); CHECK("a/0 dynamic", allnan(c / d) && errno == ERANGE); errno = 0; a /= 0.0; CHECK("a/=0", allnan(a) && errno == ERANGE); errno = 0; c /= 0.0; CHECK("c/=0", allnan(c) && errno == ERANGE); } } }
// every operation at arguments of every magnitude: each component within a relative tolerance of its own
template<class D> struct Parts;
template<> struct Parts<dual> { static int n() { return 2; } static real get(const dual& d, int i) { return i == 0 ? d.Re() : d.Dual(); } static L want(const J& r, int i) { return i == 0 ? r.a : r.b[0]; } };
template<> struct Parts<dual2> { static int n() { return 3; } static real get(const dual2& d, int i) { return i == 0 ? d.Re() : i == 1 ? d.Dual1() : d.Dual2(); } static L want(const J& r, int i) { return i == 0 ? r.a : i == 1 ? r.b[0] : r.c; } };
template<unsigned N> struct Parts<multidual<N>> { static int n() { return 4; } static real get(const multidual<N>& d, int i) { return i == 0 ? d.Re() : d.Dual()[i - 1]; } static L want(const J& r, int i) { return i == 0 ? r.a : r.b[i - 1]; } };
template<class D> static void wide(const char* ty) {
	EPS = 1e-13L; EPST = 0.01L; CAPX = 300; CAPM = 1e200L; EDGE = 1 - 1e-6L;
	std::vector<L> as; int E = vf::thorough() ? 40 : 26; for (int e = -E; e <= 20; ++e) for (int m = 0; m < (vf::thorough() ? 8 : 3); ++m) { L v = ldexpl(1 + m / (vf::thorough() ? 8.0L : 3.0L), e); as.push_back((real) v); as.push_back((real) -v); } for (L v : {0.9L, 0.96L, 0.99L, 0.9999L, 0.99999L, 15.0L, 18.5L, 21.0L, 36.0L, 45.0L, 100.0L, 250.0L}) { as.push_back((real) v); as.push_back((real) -v); }
	for (L a : as) for (int o = 0; o < NOPS; ++o) { if (!Hyp<D>::has && (o == SINH || o == COSH || o == TANH)) continue; if (o == SELFDIV) continue;
		bool trig = o == SIN || o == COS || o == TAN || o == COT; if (trig && fabsl(a) > 1e5L) continue;
		for (auto& b : std::vector<J>{J{a, {1, 0, 2}, 0}, J{a, {-0.5L, 3, 0.25L}, 1.5L}}) for (L xa : {0.75L, -1024.0L, 0.0009765625L}) { if (o > PDIVX && xa != 0.75L) continue; J r = b, xj{xa, {1, -2, 0}, 0.5L}; if (!ref(o, r, xj)) continue; if (!vf::begin("%s %s at (%Lg;%Lg,%Lg,%Lg;%Lg) with %Lg", ty, nm[o], b.a, b.b[0], b.b[1], b.b[2], b.c, xa)) continue;
			D y, x; make(y, b); make(x, xj); errno = 0; act(o, y, x); CHECK("no error in the domain", errno == 0); L sc = fabsl(r.b[0]) + fabsl(r.b[1]) + fabsl(r.b[2]);
			for (int i = 0; i < Parts<D>::n(); ++i) { L g = Parts<D>::get(y, i), w = Parts<D>::want(r, i), ab = 0; bool inv_ = o == ASIN || o == ACOS || o == ATAN; if (i == 0 && inv_) ab = 2e-7L; else if (trig) ab = 1e-9L * (1 + fabsl(w)); else if (o == TANH) ab = 1e-13L; else if (i == 0) ab = (o == LN || o == LOG2 || o == LOG10) ? 1e-10L : o <= PSUBK ? 1e-12L * (fabsl(a) + 2048) : 0; else if (std::is_same<D, dual2>::value && i == 2) ab = 1e-12L * (sc * sc * (o >= SQRT ? fabsl(w) / (1 + sc) : 0)) ; 
				// terms of the chain rule may cancel: scale of the largest of them
				L cs = 0; if (i == 2 && std::is_same<D, dual2>::value) { J p = b; p.c = 0; J q = b; q.b[0] = 0; J r1 = p, r2 = q; ref(o, r1, xj); ref(o, r2, xj); cs = 1e-9L * (fabsl(r1.c) + fabsl(r2.c)); } else if (i > 0 && (o <= PDIVX)) { J p = b; for (auto& z : p.b) z = 0; J x0 = xj; for (auto& z : x0.b) z = 0; J r1 = p, r2 = b; ref(o, r1, xj); ref(o, r2, x0); cs = 1e-12L * (fabsl(r1.b[std::is_same<D, dual>::value || std::is_same<D, dual2>::value ? 0 : i - 1]) + fabsl(r2.b[std::is_same<D, dual>::value || std::is_same<D, dual2>::value ? 0 : i - 1])); }
				++vf::S().checks; if (!(fabsl(g - w) <= 1e-7L * fabsl(w) + ab + cs)) vf::fail(std::string(nm[o]) + (i == 0 ? " value" : " derivative"), "component %d is %.17Lg instead of %.17Lg", i, g, w); vf::state(vf::mix(vf::hd((float) g), o)); } } }
	EPS = 0.05L; EPST = 0.05L; CAPX = 8; CAPM = 1e5L; EDGE = 0.95L;
}
SECTION(d1_wide) { wide<dual>("dual"); }
SECTION(d2_wide) { wide<dual2>("dual2"); }
SECTION(md_wide) { wide<multidual<3>>("multidual<3>"); wide<multidual<0>>("multidual<>"); }
// integer powers of every exponent
template<class D> static void powers(const char* ty) { for (int n = -24; n <= 24; ++n) for (L a : {-3.0L, -1.5L, -1.0L, -0.5L, 0.25L, 1.0L, 1.25L, 2.0L, 7.0L, 0.0L}) { if (a == 0 && n < 1) continue; if (!vf::begin("%s (%Lg)^%d", ty, a, n)) continue; J b{a, {1, -2, 0.5L}, 0.75L}, r = jpow(b, n); D y; make(y, b); errno = 0; D z = pow(y, n); CHECK("no error", errno == 0); for (int i = 0; i < Parts<D>::n(); ++i) NEAR("power", Parts<D>::get(z, i), Parts<D>::want(r, i), 1e-10, a == 0 ? 1e-300 : 0); } }
SECTION(d1_powers) { powers<dual>("dual"); }
SECTION(d2_powers) { powers<dual2>("dual2"); }
SECTION(md_powers) { powers<multidual<3>>("multidual<3>"); powers<multidual<0>>("multidual<>"); }
SECTION(d1_iface) {
	for (real a : {-2., 0., 1.5}) for (real b : {-1., 0., 2.}) { if (!vf::begin("dual(%g,%g)", a, b)) continue;
		dual d(a, b); EQ("Re", d.Re(), a); EQ("Dual", d.Dual(), b); EQ("Re()", Re(d), a); EQ("Dual()", Dual(d), b); dual e(a); EQ("real ctor", e.b, 0.0); e = d; e = 3.0; EQ("=real", e.a, 3.0); EQ("=real", e.b, 0.0);
		EQ("conj", d.conjugate().a, a); EQ("conj", d.conjugate().b, -b); vec2 v = d.to_vec(); EQ("to_vec", v[0], a); EQ("to_vec", v[1], b); dual g; g.from_vec(v); CHECK("from_vec", g == d); dual h(v); CHECK("vec ctor", h == d); h = dual(99, -99); h = std::array<real, 2>{{a, b}}; CHECK("array", h == d); dual z0; CHECK("default", z0.a == 0 && z0.b == 0); z0 = v; CHECK("=vec", z0.a == a && z0.b == b); CHECK("==", !(h == dual(a, b + 1)) && !(h == dual(a + 1, b)));
		mat2 m = d.to_mat(), n = dual(3, -2).to_mat(), p = (d * dual(3, -2)).to_mat(), q = m * n; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) NEAR("matrix form is a homomorphism", q(i, j), p(i, j), 1e-12, 1e-12); EQ("to_mat", m(0, 1), b); EQ("to_mat", m(1, 0), 0.0);
		d.Re() = 7; d.Dual() = 8; EQ("write Re", d.a, 7.0); EQ("write Dual", d.b, 8.0); if (a == 0) { dual z(1, 1); errno = 0; z /= 0.0; CHECK("/=0", errno == ERANGE && z.a != z.a && z.b != z.b); } }
}
SECTION(d2_iface) {
	for (real a : {-2., 0., 1.5}) for (real b : {-1., 2.}) for (real c : {0., 3.}) { if (!vf::begin("dual2(%g,%g,%g)", a, b, c)) continue;
		dual2 d(a, b, c); EQ("Re", d.Re(), a); EQ("Dual1", d.Dual1(), b); EQ("Dual2", d.Dual2(), c); dual2 e(a, b); EQ("2 ctor", e.c, 0.0); e = 3.0; CHECK("=real", e.a == 3 && e.b == 0 && e.c == 0); vec3 v = d.to_vec(); CHECK("to_vec", v[0] == a && v[1] == b && v[2] == c); dual2 g; g.from_vec(v); CHECK("from_vec", g == d); dual2 h(v); CHECK("ctor", h == d); h = dual2(99, -99, 98); h = std::array<real, 3>{{a, b, c}}; CHECK("array", h.a == a && h.b == b && h.c == c); dual2 z0; CHECK("default", z0.a == 0 && z0.b == 0 && z0.c == 0); z0 = v; CHECK("=vec", z0.a == a && z0.b == b && z0.c == c); CHECK("==", !(h == dual2(a, b, c + 1)) && !(h == dual2(a, b + 1, c)));
		CHECK("conj", d.conjugate().a == a && d.conjugate().b == -b && d.conjugate().c == -c);
		errno = 0; dual2 z = d / 0.0; CHECK("/0", errno == ERANGE && allnan(z)); errno = 0; z = d; z /= 0.0; CHECK("/=0", errno == ERANGE && allnan(z)); errno = 0; z = d / dual2(0, 1, 1); CHECK("/dual2 0", errno == ERANGE && allnan(z)); }
}
template<class DR, class DV> static void alias(const char* t, unsigned n) {
	if (!vf::begin("multidual types %s", t)) return;
	DV a; a.resize(n); EQ("vector size", a.size(), n); DR d; d.resize(n); EQ("gradient size", d.Dual().size(), n); EQ("default value", d.Re(), 0.0); for (unsigned i = 0; i < n; ++i) EQ("default gradient", d.Dual()[i], 0.0);
	// x0 + 2 x1 + ... through the named types
	DR s = a[0]; for (unsigned i = 0; i < n; ++i) { a[i].resize(n); a[i].Re() = i + 1; for (unsigned j = 0; j < n; ++j) a[i].Dual()[j] = i == j; s = i ? s + a[i] * (i + 1.0) : a[i]; }
	for (unsigned i = 0; i < n; ++i) EQ("gradient", s.Dual()[i], i + 1.0);
}
SECTION(md_iface) {
	alias<autodiff::dreal, autodiff::dvec>("dreal, dvec", 3); alias<autodiff::dreal2, autodiff::dvec2>("dreal2, dvec2", 2); alias<autodiff::dreal3, autodiff::dvec3>("dreal3, dvec3", 3); alias<autodiff::dreal4, autodiff::dvec4>("dreal4, dvec4", 4);
	if (vf::begin("sizes of the types")) { errno = 0; autodiff::dvec d5; d5.resize(5); EQ("dvec", d5.size(), 5u); EQ("dvec2", autodiff::dvec2().size(), 2u); EQ("dvec3", autodiff::dvec3().size(), 3u); EQ("dvec4", autodiff::dvec4().size(), 4u); EQ("dreal2", autodiff::dreal2().Dual().size(), 2u); EQ("dreal3", autodiff::dreal3().Dual().size(), 3u); EQ("dreal4", autodiff::dreal4().Dual().size(), 4u); CHECK("errno", errno == 0); }
	for (unsigned n = 1; n <= 5; ++n) { if (!vf::begin("dynamic multidual argument of size %u", n)) continue;
		vec<real> x(n, 0.0); for (unsigned i = 0; i < n; ++i) x[i] = i * 1.5 - 2; auto a = multidual<0>::make_argument(x); EQ("size", a.size(), n);
		for (unsigned i = 0; i < n; ++i) { EQ("value", a[i].Re(), x[i]); EQ("dual size", a[i].Dual().size(), n); for (unsigned j = 0; j < n; ++j) EQ("canonical", a[i].Dual()[j], i == j ? 1.0 : 0.0); }
		vec<real> y = multidual<0>::extract_real(a); EQ("extract_real size", y.size(), n); mat<real> M = multidual<0>::extract_dual(a); EQ("extract_dual rows", M.rows(), n); vec<real> z(n, 0.0); mat<real> Q(n, n); for (unsigned i = 0; i < n; ++i) a[i].Dual()[(i + 1) % n] += 3; multidual<0>::extract(a, z, Q);
		for (unsigned i = 0; i < n; ++i) { EQ("extract_real", y[i], x[i]); EQ("extract x", z[i], x[i]); for (unsigned j = 0; j < n; ++j) { EQ("extract_dual", M(i, j), i == j ? 1.0 : 0.0); EQ("extract J", Q(i, j), a[i].Dual()[j]); } } }
	if (vf::begin("static multidual argument")) { vec<real, 3> x = {1, -2, 4}; auto a = multidual<3>::make_argument(x); a[0].Dual()[1] = 5; vec<real, 3> y = multidual<3>::extract_real(a), z; mat<real, 3, 3> M = multidual<3>::extract_dual(a), Q; multidual<3>::extract(a, z, Q); for (int i = 0; i < 3; ++i) { EQ("extract_real", y[i], x[i]); EQ("extract", z[i], x[i]); for (int j = 0; j < 3; ++j) { EQ("extract_dual", M(i, j), a[i].Dual()[j]); EQ("extract", Q(i, j), a[i].Dual()[j]); } } multidual<3> d(2, {1, 2, 3}), e(2, {1, 2, 3}), f(2, {1, 2, 4}); CHECK("==", d == e && !(d == f)); d = 4.0; CHECK("=real", d.Re() == 4 && d.Dual()[0] == 0 && d.Dual()[2] == 0); CHECK("conj", e.conjugate().Dual()[1] == -2); }
}
// ---- differential operators on polynomial fields with known derivatives -------------------------------
// f(x) = prod x_i^{e_i} for every exponent triple, plus transcendental fields
static int E3[3]; static int F3[3][3];
template<class T, class V> static T mono(const V& x, const int* e) { T r = x[0] * 0.0 + 1.0; for (unsigned i = 0; i < 3; ++i) for (int k = 0; k < e[i]; ++k) r = r * x[i]; return r; }
static L dm(const real* x, const int* e, int i) { if (e[i] == 0) return 0; L r = e[i]; for (int k = 0; k < 3; ++k) for (int q = 0; q < e[k] - (k == i); ++q) r *= x[k]; return r; }
static L dm2(const real* x, const int* e, int i) { if (e[i] < 2) return 0; L r = e[i] * (e[i] - 1); for (int k = 0; k < 3; ++k) for (int q = 0; q < e[k] - 2 * (k == i); ++q) r *= x[k]; return r; }
template<unsigned N> static multidual<N> fs(vec<multidual<N>, N> x) { return mono<multidual<N>>(x, E3); }
template<unsigned N> static multidual<N> fg(vec<multidual<N>, N> x) { return mono<multidual<N>>(x, F3[0]); }
template<unsigned N> static vec<multidual<N>, N> fv(vec<multidual<N>, N> x) { vec<multidual<N>, N> r; r.resize(3); for (int i = 0; i < 3; ++i) r[i] = mono<multidual<N>>(x, F3[i]); return r; }
template<unsigned N> static dual2 fl(vec<dual2, N> x) { return mono<dual2>(x, E3); }
template<unsigned N> static vec<multidual<N>, 2> fj2(vec<multidual<N>, N> x) { vec<multidual<N>, 2> r; for (int i = 0; i < 2; ++i) r[i] = mono<multidual<N>>(x, F3[i]); return r; }
static vec<multidual<0>, 0> fjd(vec<multidual<0>, 0> x) { vec<multidual<0>, 0> r; r.resize(2); for (int i = 0; i < 2; ++i) r[i] = mono<multidual<0>>(x, F3[i]); return r; }
template<unsigned N> static void ops(const char* ty, const real* p) {
	vec<real, N> x; x.resize(3); for (int i = 0; i < 3; ++i) x[i] = p[i]; const vec<real, N> x0 = x; errno = 0;
	vec<real, N> g = autodiff::gradient(fs<N>, x), h = autodiff::gradient(fs<N>)(x); L dv = 0, lp = 0; vec<real, N> dir; dir.resize(3); dir[0] = 0.5; dir[1] = -2; dir[2] = 1; L dd = 0;
	for (int i = 0; i < 3; ++i) { L d = dm(p, E3, i); NEAR("gradient", g[i], d, 1e-9, 1e-9); NEAR("gradient lambda", h[i], d, 1e-9, 1e-9); dv += d; lp += dm2(p, E3, i); dd += d * dir[i]; }
	NEAR("divergence", autodiff::divergence(fs<N>, x), dv, 1e-9, 1e-9); NEAR("divergence lambda", autodiff::divergence(fs<N>)(x), dv, 1e-9, 1e-9);
	NEAR("laplacian", autodiff::laplacian<N>(fl<N>, x), lp, 1e-9, 1e-9); NEAR("laplacian lambda", autodiff::laplacian<N>(fl<N>)(x), lp, 1e-9, 1e-9);
	vec<real, N> D = autodiff::directional_derivative<N>(fs<N>, x, dir), D2 = autodiff::directional_derivative<N>(fs<N>, dir)(x); for (int i = 0; i < 3; ++i) { NEAR("directional derivative", D[i], dir[i] * dd, 1e-9, 1e-9); NEAR("directional derivative lambda", D2[i], dir[i] * dd, 1e-9, 1e-9); }
	mat<real, N, N> Jm = autodiff::jacobian<N, N>(fv<N>, x), Jl = autodiff::jacobian<N, N>(fv<N>)(x); L q[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { q[i][j] = dm(p, F3[i], j); NEAR("jacobian", Jm(i, j), q[i][j], 1e-9, 1e-9); NEAR("jacobian lambda", Jl(i, j), q[i][j], 1e-9, 1e-9); }
	vec<real, N> c = autodiff::curl<N>(fv<N>, x), cl = autodiff::curl<N>(fv<N>)(x); L w[3] = {q[2][1] - q[1][2], q[0][2] - q[2][0], q[1][0] - q[0][1]}; for (int i = 0; i < 3; ++i) { NEAR("curl", c[i], w[i], 1e-9, 1e-9); NEAR("curl lambda", cl[i], w[i], 1e-9, 1e-9); EQ("x kept", x[i], x0[i]); }
	CHECK("errno", errno == 0);
}
static multidual<0> sl_f(vec<multidual<0>> x) { return mono<multidual<0>>(x, E3) + x[3] * x[1]; }
static multidual<0> sl_h(vec<multidual<0>> x) { return x[2] * x[2] * 0.5 + x[3] * x[3] * 2.0 + x[0] * x[0] * x[1]; }
static multidual<4> sl_f4(vec<multidual<4>, 4> x) { return mono<multidual<4>>(x, E3) + x[3] * x[1]; }
static multidual<4> sl_h4(vec<multidual<4>, 4> x) { return x[2] * x[2] * 0.5 + x[3] * x[3] * 2.0 + x[0] * x[0] * x[1]; }
SECTION(op_fields) {
	std::vector<int> e = {0, 1, 2, 3}; int c = 0;
	words(e, 3, [&](const std::vector<int>& w) { for (int s = 0; s < 64; s += vf::thorough() ? 1 : 5) { const real P[4][3] = {{1, 2, -1}, {0.5, -3, 2}, {0, 1, 0}, {-1.5, 0, 4}}; ++c;
		for (int k = 0; k < 3; ++k) { E3[k] = w[k]; F3[0][k] = (s >> (2 * k)) & 3; F3[1][k] = (F3[0][k] + w[k]) % 4; F3[2][k] = (w[(k + 1) % 3] + k) % 3; }
		const real* p = P[c % 4];
		if (!vf::begin("fields x^%d y^%d z^%d / %d at %g %g %g", w[0], w[1], w[2], s, p[0], p[1], p[2])) continue;
		ops<3>("static", p); ops<0>("dynamic", p);
		{ vec<real, 3> x = {p[0], p[1], p[2]}; mat<real, 2, 3> A = autodiff::jacobian<3, 2>(fj2<3>, x); vec<real> y(3, 0.0); for (int i = 0; i < 3; ++i) y[i] = p[i]; mat<real> Bm = autodiff::jacobian<0, 0>(fjd, y); EQ("rows", Bm.rows(), 2u); EQ("cols", Bm.cols(), 3u); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { NEAR("jacobian 2x3", A(i, j), dm(p, F3[i], j), 1e-9, 1e-9); NEAR("jacobian 2x3 dynamic", Bm(i, j), dm(p, F3[i], j), 1e-9, 1e-9); } }
		// Poisson bracket {f, H} with coordinates (q0,q1) and momenta (p0,p1)
		{ real z[4] = {p[0], p[1], p[2], 1.25}; L df[4] = {dm(p, E3, 0), dm(p, E3, 1) + z[3], dm(p, E3, 2), z[1]}, dh[4] = {2 * z[0] * z[1], z[0] * z[0], z[2], 4 * z[3]}; L want = df[0] * dh[2] + df[1] * dh[3] - df[2] * dh[0] - df[3] * dh[1];
		  vec<real> v(4, 0.0); vec<real, 4> v4; for (int i = 0; i < 4; ++i) v[i] = v4[i] = z[i]; NEAR("sturm_liouville", autodiff::sturm_liouville<0>(sl_f, sl_h, v), want, 1e-9, 1e-9); NEAR("sturm_liouville static", autodiff::sturm_liouville<4>(sl_f4, sl_h4, v4), want, 1e-9, 1e-9); }
	} });
	for (int n = 1; n <= 5; ++n) if (n != 3 && vf::begin("curl in %d dimensions", n)) { vec<real> x(n, 1.0); errno = 0; vec<real> r = autodiff::curl<0>([](vec<multidual<0>> y) { return y; }, x); CHECK("curl needs 3 dimensions", errno == EINVAL && r[0] != r[0]); }
}
SECTION(op_univariate) {
	for (int k = -40; k <= 40; ++k) { real x = k * 0.11 + 0.003; if (!vf::begin("deriv at %g", x)) continue; errno = 0;
		auto f = [](dual t) { return exp(sin(t)) / (t * t + 1.0); }; auto g = [](dual2 t) { return exp(sin(t)) / (t * t + 1.0); };
		J y = J{x, {1, 0, 0}, 0}, s = y, q = y * y + cst(1); ref(SIN, s, y); ref(EXP, s, y); J r = s * inv(q);
		NEAR("deriv", autodiff::deriv(f, x), r.b[0], 1e-9, 1e-9); NEAR("deriv lambda", autodiff::deriv(f)(x), r.b[0], 1e-9, 1e-9); NEAR("deriv2", autodiff::deriv2(g, x), r.c, 1e-9, 1e-9); NEAR("deriv2 lambda", autodiff::deriv2(g)(x), r.c, 1e-9, 1e-9); CHECK("errno", errno == 0); }
}
VF_MAIN
