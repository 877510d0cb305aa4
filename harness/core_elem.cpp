// Elementary and special functions against the C library in extended precision, over every
// argument of a dyadic grid (all p-bit significands x all binary exponents of the working range).
#include "common.h"
#include <cfloat>
#include <limits>
#include "theoretica.h"
using namespace theoretica;
typedef long double L;

#ifdef THEORETICA_FLOAT_PREC
static const double T0 = 2e-5, TA = 2e-5, TI = 2e-5; static const int FL = 1;
#else
static const int FL = 0;
#ifdef THEORETICA_DISABLE_X86
static const double T0 = 2e-8, TA = 5e-8, TI = 2e-8;
#else
static const double T0 = 1e-10, TA = 5e-8, TI = 2e-8;   // TA, TI: minimax arctangent and Newton iterations
#endif
#endif

// all s*m*2^e with m in [2^(p-1), 2^p) and e0 <= exponent < e1
template<class F> static void grid(int p, int e0, int e1, bool neg, F f) {
	for (int s = 0; s < (neg ? 2 : 1); ++s)
		for (int e = e0; e < e1; ++e)
			for (long m = 1L << (p - 1); m < (1L << p); ++m)
				f((real) ((s ? -1 : 1) * std::ldexp((double) m, e - p + 1)));
}
static int P() { return FL ? 9 : (vf::thorough() ? 17 : 10); }

// value comparison plus: an in-domain evaluation reports no error
template<class F, class G> static void at(const char* tag, real x, F f, G g, double tol, bool noerr = true) {
	if (!vf::begin_fast(tag, x)) return;
	errno = 0;
	real r = f(x);
	int e = errno;
	++vf::S().checks;
	double want = (double) g((L) x), got = (double) r;
	vf::state(vf::mix(vf::hd(got), (uint64_t) (uintptr_t) tag));
	if (!vf::near_(got, want, tol, tol)) vf::fail(tag, "got %.17g, expected %.17g", got, want);
	if (noerr) CHECKF(std::string(tag) + "_spurious_error", e == 0, "errno=%d for an argument inside the domain", e);
}
#define UN(tag, fn, ref, tol) [&](real x) { at(tag, x, [](real x) -> real { return fn; }, [](L x) -> L { return ref; }, tol); }

// the named constants, to the precision of the type
SECTION(constants_) {
	struct { const char* n; real c; L w; } k[] = {
		{"PHI", PHI, (1 + sqrtl(5)) / 2}, {"INVPHI", INVPHI, 2 / (1 + sqrtl(5))}, {"PI", PI, M_PIl}, {"PI2", PI2, M_PIl / 2}, {"PI4", PI4, M_PIl / 4}, {"PIDOUBLE", PIDOUBLE, 2 * M_PIl},
		{"TAU", TAU, 2 * M_PIl}, {"INVPI", INVPI, 1 / M_PIl}, {"SQRTPI", SQRTPI, sqrtl(M_PIl)}, {"E", E, expl(1)}, {"LOG2E", LOG2E, log2l(expl(1))}, {"LOG210", LOG210, log2l(10)},
		{"LOG10E", LOG10E, 1 / logl(10)}, {"LN2", LN2, logl(2)}, {"LN10", LN10, logl(10)}, {"DEG2RAD", DEG2RAD, M_PIl / 180}, {"RAD2DEG", RAD2DEG, 180 / M_PIl},
		{"SQRT2", SQRT2, sqrtl(2)}, {"INVSQR2", INVSQR2, 1 / sqrtl(2)}, {"SQRT3", SQRT3, sqrtl(3)}, {"MACH_EPSILON", MACH_EPSILON, std::numeric_limits<real>::epsilon()}};
	for (auto& q : k) { if (!vf::begin("constant %s", q.n)) continue; NEAR(q.n, q.c, q.w, FL ? 2e-7 : 3e-16, 0); }
}
SECTION(roots_) {
	grid(P(), -26, 27, false, UN("sqrt", th::sqrt(x), sqrtl(x), T0));
	grid(P(), -26, 27, true, UN("cbrt", th::cbrt(x), cbrtl(x), TI));
	at("sqrt", 0, [](real x) { return th::sqrt(x); }, [](L x) { return sqrtl(x); }, 0);
	at("cbrt", 0, [](real x) { return th::cbrt(x); }, [](L x) { return cbrtl(x); }, 0);
	for (int i = 0; i <= 2000; ++i) {
		at("sqrt_of_square", (real) i * i, [](real x) { return th::sqrt(x); }, [](L x) { return sqrtl(x); }, T0);
		at("cbrt_of_cube", (real) i * i * i, [](real x) { return th::cbrt(x); }, [](L x) { return cbrtl(x); }, TI);
	}
	// single precision: the iteration stops on an absolute residual the format cannot reach
	if (!FL) grid(9, -8, 9, true, [&](real x) {
		for (int n = -9; n <= 9; ++n) {
			if (n == 0 || (x < 0 && n % 2 == 0)) continue;
			if (!vf::begin("root x=%.17g n=%d", (double) x, n)) continue;
			errno = 0; real r = root(x, n);
			L w = powl(fabsl((L) x), 1.0L / n) * (x < 0 ? -1 : 1);
			NEAR("root", r, w, TI, TI);
			CHECK("root_spurious_error", errno == 0);
		}
	});
	for (int n = 1; n <= 15; ++n) if (vf::begin("root(0,%d)", n)) EQ("root_zero", root(0, n), 0.0);
	if (!FL) for (int b = 2; b <= 30; ++b) for (int n = 2; n <= 20; ++n) for (int sg = 1; sg >= -1; sg -= 2) {
		if (sg < 0 && n % 2 == 0) continue;
		if (!vf::begin("root(%d^%d)", sg * b, n)) continue;
		real x = sg; for (int k = 0; k < n; ++k) x *= b;
		errno = 0; real r = root(x, n);
#ifdef THEORETICA_DISABLE_X86   // started from x itself, the documented iteration limit may be hit: then reported
		if (r != r) { CHECK("root_no_convergence_reported", errno != 0); continue; }
#endif
		NEAR("root_of_power", r, sg * b, 1e-7, 0); CHECK("root_of_power_error", errno == 0);
	}
#if !defined(THEORETICA_DISABLE_X86) && !defined(THEORETICA_FLOAT_PREC)
	grid(6, -1000, 1000, false, UN("sqrt_wide", th::sqrt(x), sqrtl(x), T0));
#endif
}
SECTION(logs_) {
	grid(P(), -40, 41, false, UN("log2", th::log2(x), log2l(x), T0));
	grid(P(), -40, 41, false, UN("ln", th::ln(x), logl(x), T0));
	grid(P(), -40, 41, false, UN("log10", th::log10(x), log10l(x), T0));
	int q = FL ? 4 : 5, E = FL ? 120 : 1020;
	grid(q, -E, E, false, UN("log2_wide", th::log2(x), log2l(x), T0));
	grid(q, -E, E, false, UN("ln_wide", th::ln(x), logl(x), T0));
	grid(q, -E, E, false, UN("log10_wide", th::log10(x), log10l(x), T0));
}
SECTION(exps_) {
	auto lim = [](real x, real m) { return x <= m && x >= -m; };
	grid(P(), -20, 10, true, [&](real x) {
		real m = FL ? 80 : 700;
		if (lim(x, m)) {
			UN("exp", th::exp(x), expl(x), T0)(x);
			UN("sigmoid", th::sigmoid(x), 1 / (1 + expl(-x)), T0)(x);
			UN("tanh", th::tanh(x), tanhl(x), T0)(x);
			UN("sinh", th::sinh(x), sinhl(x), T0)(x);
			UN("cosh", th::cosh(x), coshl(x), T0)(x);
			UN("expm1", th::expm1(x), expm1l(x), T0)(x);
			if (x >= 0.0625 || x <= -0.0625) UN("coth", th::coth(x), 1 / tanhl(x), T0 * 20)(x);
		}
	});
	// relative accuracy of expm1 near zero is the point of that function
	grid(P(), -30, -10, true, [&](real x) { if (!vf::begin_fast("expm1_rel", x)) return; NEAR("expm1_rel", th::expm1(x), expm1l(x), FL ? 1e-3 : 1e-9, 0); });
	UN("exp", th::exp(x), expl(x), T0)(0);
#ifdef THEORETICA_X86
	// the instructions behind the x86 build
	grid(P(), -20, -1, false, [&](real x) { UN("exp_x86_norm", th::exp_x86_norm(x), expl(x), T0)(x); UN("f2xm1", th::f2xm1(x), exp2l(x) - 1, T0)(x); });
	UN("exp_x86_norm", th::exp_x86_norm(x), expl(x), T0)(0); UN("exp_x86_norm", th::exp_x86_norm(x), expl(x), T0)(1); UN("f2xm1", th::f2xm1(x), exp2l(x) - 1, T0)(1);
	grid(P() / 2, -30, 30, false, [&](real x) { for (real y : {1., -2., 0.5}) { if (!vf::begin_fast("fyl2x", x, y)) continue; NEAR("fyl2x", th::fyl2x(x, y), (L) y * log2l(x), T0, T0); } });
#endif
	UN("expm1", th::expm1(x), expm1l(x), T0)(0);
	for (int i = -700; i <= 700; ++i) if (!FL || std::abs(i) < 80) UN("exp_int", th::exp(x), expl(x), T0)(i);
	grid(FL ? 6 : 8, -9, 10, false, [&](real x) {
		for (int k = -28; k <= 28; ++k) {
			real a = k / (real) 8;
			if (!vf::begin("powf x=%.17g a=%g", (double) x, (double) a)) continue;
			errno = 0;
			NEAR("powf", th::powf(x, a), powl((L) x, (L) a), T0 * 5, T0);
			CHECK("powf_spurious_error", errno == 0);
		}
	});
}
SECTION(trig_) {
	int e1 = FL ? 5 : 14;
	grid(P(), -26, e1, true, UN("sin", th::sin(x), sinl(x), T0));
	grid(P(), -26, e1, true, UN("cos", th::cos(x), cosl(x), T0));
	// dense uniform grid over several periods
	int N = FL ? 4000 : 40000;
	for (int i = -N; i <= N; ++i) {
		real x = i / (real) (N / 40);
		UN("sin_uniform", th::sin(x), sinl(x), T0)(x);
		UN("cos_uniform", th::cos(x), cosl(x), T0)(x);
		UN("sinc", th::sinc(x), (x == 0 ? 1 : sinl(M_PIl * x) / (M_PIl * x)), T0)(x);
		L c = cosl((L) x), s = sinl((L) x);
		if (fabsl(c) > 0.01) UN("tan", th::tan(x), tanl(x), T0 * 200)(x);
		if (fabsl(s) > 0.01) UN("cot", th::cot(x), cosl(x) / sinl(x), T0 * 200)(x);
	}
	// multiples of pi/12 and their neighbours: every quadrant boundary
	for (int k = -240; k <= 240; ++k) for (int d = -2; d <= 2; ++d) {
		real x = (real) (k * M_PIl / 12); for (int j = 0; j < std::abs(d); ++j) x = std::nextafter(x, (real) (d < 0 ? -1e9 : 1e9));
		UN("sin_boundary", th::sin(x), sinl(x), T0)(x);
		UN("cos_boundary", th::cos(x), cosl(x), T0)(x);
		if (k % 12 != 6 && k % 12 != -6) UN("tan_boundary", th::tan(x), tanl(x), T0 * 20)(x);
		if (k % 12 != 0) UN("cot_boundary", th::cot(x), cosl(x) / sinl(x), T0 * 20)(x);
	}
}
SECTION(arc_) {
	grid(P(), -26, 27, true, UN("atan", th::atan(x), atanl(x), TA));
	UN("atan", th::atan(x), atanl(x), TA)(0);
	grid(P(), -26, 0, true, UN("asin", th::asin(x), asinl(x), TA));
	grid(P(), -26, 0, true, UN("acos", th::acos(x), acosl(x), TA));
	for (real x : {(real) -1, (real) 1, (real) 0, (real) -0.0}) {
		UN("asin", th::asin(x), asinl(x), TA)(x);
		UN("acos", th::acos(x), acosl(x), TA)(x);
	}
	// all quadrants and axes of atan2
	std::vector<real> v = {0};
	for (int e = -9; e < 10; ++e) for (int m = 8; m < 16; ++m) { real x = std::ldexp((real) m, e - 3); v.push_back(x); v.push_back(-x); }
	for (real y : v) for (real x : v) {
		if (x == 0 && y == 0) continue;
		if (!vf::begin("atan2 y=%.17g x=%.17g", (double) y, (double) x)) continue;
		errno = 0;
		NEAR("atan2", th::atan2(y, x), atan2l(y, x), TA, TA);
		CHECK("atan2_spurious_error", errno == 0);
	}
}
SECTION(archyp_) {
	grid(P(), -20, FL ? 6 : 20, true, UN("asinh", th::asinh(x), asinhl(x), T0));
	grid(P(), 0, FL ? 8 : 24, false, UN("acosh", th::acosh(x), acoshl(x), T0 * (x < 1.0001 ? 100 : 1)));
	grid(P(), -20, 0, true, [&](real x) { if (x < 0.9999 && x > -0.9999) UN("atanh", th::atanh(x), atanhl(x), T0 * 2)(x); });
	UN("asinh", th::asinh(x), asinhl(x), T0)(0);
	UN("acosh", th::acosh(x), acoshl(x), T0)(1);
	UN("atanh", th::atanh(x), atanhl(x), T0)(0);
}

// ---- rounding, sign, ordering helpers: exact -------------------------------------------------
SECTION(round_) {
	auto one = [](real x) {
		if (!vf::begin_fast("round", x)) return;
		EQ("floor", (double) th::floor(x), std::floor((double) x));
		NEAR("fract", th::fract(x), (double) (x - std::floor(x)), 1e-15, 0);
		EQ("abs", th::abs(x), std::fabs(x));
		EQ("sgn", th::sgn(x), (x > 0) - (x < 0));
		EQ("square", th::square(x), x * x);
		EQ("cube", th::cube(x), x * x * x);
		EQ("identity", th::identity(x), x);
		EQ("heaviside", th::heaviside(x), (real) (std::fabs(x) < MACH_EPSILON ? 0.5 : (x > 0 ? 1 : 0)));
		NEAR("radians", th::radians(x), (L) x * M_PIl / 180, FL ? 1e-6 : 1e-14, 0);
		NEAR("degrees", th::degrees(x), (L) x * 180 / M_PIl, FL ? 1e-6 : 1e-14, 0);
		EQ("conjugate", th::conjugate(x), x);
	};
	one(0); one((real) -0.0);
	grid(FL ? 8 : 11, -20, 30, true, one);
	for (int i = -4000; i <= 4000; ++i) { one((real) i); one(i / (real) 8); one(std::nextafter((real) i, (real) 1e9)); one(std::nextafter((real) i, (real) -1e9)); }
}
SECTION(round_order) {
	std::vector<real> v = {0};
	for (int e = -12; e < 12; e += 3) for (int m = 4; m < 8; ++m) { v.push_back(std::ldexp((real) m, e)); v.push_back(-v.back()); }
	for (real x : v) for (real y : v) {
		if (!vf::begin("minmax x=%.17g y=%.17g", (double) x, (double) y)) continue;
		NEAR("max", th::max(x, y), std::max(x, y), 1e-6 * FL + 1e-12, 1e-12 + 1e-5 * FL);
		NEAR("min", th::min(x, y), std::min(x, y), 1e-6 * FL + 1e-12, 1e-12 + 1e-5 * FL);
		EQ("max_int", th::max((int) x, (int) y), std::max((int) x, (int) y));
		EQ("min_int", th::min((int) x, (int) y), std::min((int) x, (int) y));
		for (real z : v) if (x <= y) {
			EQ("clamp", th::clamp(z, x, y), z < x ? x : z > y ? y : z);
			EQ("clamp_int", th::clamp((int) z, (int) x, (int) y), (int) z < (int) x ? (int) x : (int) z > (int) y ? (int) y : (int) z);
		}
	}
}

// ---- special functions ------------------------------------------------------------------------
SECTION(special_) {
#ifdef THEORETICA_DISABLE_X86
	const double TS = FL ? 2e-4 : 2e-7;
#else
	const double TS = FL ? 2e-4 : 5e-9;
#endif
	for (unsigned k = 1; k <= (FL ? 34 : 340); ++k) {
		if (!vf::begin("gamma(unsigned) k=%u", k)) continue;
		if (k <= 171) NEAR("gamma_uint", special::gamma(k), tgammal(k), FL ? 1e-5 : 1e-12, 0);
		NEAR("half_gamma", special::half_gamma(k), tgammal(k / 2.0L), FL ? 1e-5 : 1e-12, 0);
	}
	int D = 64;
	for (int i = 1; i <= 170 * D; ++i) {
		real x = i / (real) D;
		if (FL && x > 32) break;
		if (!vf::begin_fast("gamma", x)) continue;
		errno = 0;
		NEAR("gamma", special::gamma(x), tgammal(x), TS * 10, 0);
		NEAR("pi", special::pi(x), tgammal((L) x + 1), TS * 10, 0);
		NEAR("lngamma", special::lngamma(x), lgammal(x), TS, TS);
		CHECK("gamma_spurious_error", errno == 0);
	}
	if (!FL) for (int i = 1; i < 100 * D; ++i) {
		if (i % D == 0) continue;
		real x = -i / (real) D;
		if (!vf::begin_fast("gamma_neg", x)) continue;
		NEAR("gamma_negative", special::gamma(x), tgammal(x), TS * 10, 0);
		if (tgammal(x) > 0) NEAR("lngamma_negative", special::lngamma(x), lgammal(x), TS, TS);
	}
	if (!FL) for (int i = 1; i <= 400; ++i) { real x = std::ldexp(1 + (i % 4) / 4.0, 1 + i / 8); if (x > 1e14 || !vf::begin("lngamma of %g", (double) x)) continue; NEAR("lngamma_large", special::lngamma(x), lgammal(x), TS, TS); }
	for (int i = 1; i <= 80; ++i) for (int j = 1; j <= 80; ++j) {
		real a = i <= 40 ? i / (real) 4 : (i - 40) * 7.25, b = j <= 40 ? j / (real) 4 : (j - 40) * 7.25;
		if (expl(lgammal(a) + lgammal(b) - lgammal((L) a + b)) < (FL ? 1e-30L : 1e-300L)) continue;
		if (!vf::begin("beta %g %g", (double) a, (double) b)) continue;
		NEAR("beta", special::beta(a, b), expl(lgammal(a) + lgammal(b) - lgammal((L) a + b)), TS * 10, 0);
		NEAR("beta_symmetry", special::beta(a, b), special::beta(b, a), FL ? 1e-4 : 1e-9, 0);
	}
}

// ---- accuracy as the result of the algorithms promises it: relative where it is relative, over the whole exponent range
#ifndef THEORETICA_FLOAT_PREC
template<class F, class G, class W> static void wide(const char* tag, real x, F f, G g, W tol) {
	if (!vf::begin_fast(tag, x)) return;
	++vf::S().checks;
	errno = 0;
	const double got = (double) f(x); const int e = errno; const L w = g((L) x), t = tol((L) x, w);
	vf::state(vf::mix(vf::hd(got), (uint64_t) (uintptr_t) tag));
	if (!(fabsl((L) got - w) <= t)) vf::fail(tag, "got %.17g, expected %.17Lg within %.3Lg", got, w, t);
	if (e) vf::fail("wide_spurious_error", "%s: errno=%d for an argument inside the domain", tag, e);
}
#define WD(tag, fn, ref, tol) [&](real x) { for (int k_ = 0; k_ < 2; ++k_, x *= (real) (1 - 1.37e-9)) wide(tag, x, [](real x) -> real { return fn; }, [](L x) -> L { return ref; }, [](L x, L w) -> L { (void) x; return tol; }); }
#ifdef THEORETICA_DISABLE_X86
#define POWF_TOL 1e-5
#define ANGLE_TOL (1e-13L + fabsl(x) * 2e-15L)
#define SQRT_TOL (1e-8L * fabsl(w))
#define LN_TOL (2e-8L * fabsl(w) + 2e-8L)
static const int ANGLE_EXP = 32;
#else
#define POWF_TOL 1e-10
#define ANGLE_TOL (4e-15L + fabsl(x) * 1e-20L)
#define SQRT_TOL (1e-15L * fabsl(w))
#define LN_TOL (1e-13L * fabsl(w) + 1e-15L)
static const int ANGLE_EXP = 62;
#endif
SECTION(wide_powers) {
	const int p = vf::thorough() ? 11 : 6;
	grid(p, -1020, 1023, true, WD("cbrt_rel", th::cbrt(x), cbrtl(x), 6e-9L * fabsl(w)));
	grid(p, -1020, 1023, false, WD("sqrt_rel", th::sqrt(x), sqrtl(x), SQRT_TOL));
	grid(p, -1020, 1023, false, WD("ln_rel", th::ln(x), logl(x), LN_TOL));
	grid(p, -1020, 1023, false, WD("log2_rel", th::log2(x), log2l(x), LN_TOL));
	grid(p, -1020, 1023, false, WD("log10_rel", th::log10(x), log10l(x), LN_TOL));
	for (int i = -708 * 64; i <= 709 * 64 + 48; ++i) {
		const real x = i / (real) 64;
		WD("exp_rel", th::exp(x), expl(x), 2e-12L * w)(x);
		WD("cosh_rel", th::cosh(x), coshl(x), 2e-12L * w)(x);
		WD("sinh_rel", th::sinh(x), sinhl(x), 2e-12L * fabsl(w) + 1e-14L)(x);
		WD("tanh_rel", th::tanh(x), tanhl(x), 2e-12L * fabsl(w) + 1e-14L)(x);
		if (i) WD("coth_rel", th::coth(x), 1 / tanhl(x), 2e-12L * fabsl(w))(x);
		WD("sigmoid_rel", th::sigmoid(x), 1 / (1 + expl(-x)), 2e-12L * w)(x);
		WD("expm1_mid", th::expm1(x), expm1l(x), 2e-12L * fabsl(w) + 1e-14L)(x);
	}
	grid(p, -40, 0, true, WD("exp_small", th::exp(x), expl(x), 1e-14L));
	grid(5, -60, 61, false, [&](real x) {
		for (int k = -80; k <= 80; ++k) {
			const real a = k / (real) 8;
			if (!vf::begin_fast("powf_rel", x, a)) continue;
			NEAR("powf_rel", th::powf(x, a), powl((L) x, (L) a), POWF_TOL, 0);
		}
	});
	grid(5, -300, 301, false, [&](real x) {
		for (int n = -20; n <= 20; ++n) {
			if (!n || !vf::begin_fast("root_rel", x, n)) continue;
			errno = 0; const real r = root(x, n);
#ifdef THEORETICA_DISABLE_X86
			if (r != r) { CHECK("root_no_convergence_reported", errno != 0); continue; }
#endif
			NEAR("root_rel", r, powl((L) x, 1.0L / n), 6e-9, 0);
			CHECK("root_spurious_error", errno == 0);
			if (n % 2) { const real s = root(-x, n); NEAR("root_odd", s, -r, 1e-15, 0); }
		}
	});
}
SECTION(wide_angles) {
	const int p = vf::thorough() ? 12 : 9;
	grid(p, 3, ANGLE_EXP, true, WD("sin_large", th::sin(x), sinl(x), ANGLE_TOL));
	grid(p, 3, ANGLE_EXP, true, WD("cos_large", th::cos(x), cosl(x), ANGLE_TOL));
	grid(p, 3, 30, true, WD("tan_large", th::tan(x), tanl(x), 2 * ANGLE_TOL * (1 + w * w) + 1e-14L * fabsl(w)));
	grid(p, 3, 30, true, WD("cot_large", th::cot(x), cosl(x) / sinl(x), 2 * ANGLE_TOL * (1 + w * w) + 1e-14L * fabsl(w)));
	grid(p / 2, -1000, 0, true, WD("sin_small", th::sin(x), sinl(x), 1e-14L * fabsl(w)));
	grid(p / 2, -1000, 0, true, WD("tan_small", th::tan(x), tanl(x), 1e-14L * fabsl(w)));
	grid(p / 2, -400, 1000, true, WD("atan_rel", th::atan(x), atanl(x), 4e-8L * fabsl(w)));
	grid(p / 2, -400, 0, true, WD("asin_rel", th::asin(x), asinl(x), 5e-8L * fabsl(w)));
	grid(p / 2, -400, 0, true, WD("acos_rel", th::acos(x), acosl(x), 5e-8L * fabsl(w)));
	grid(p / 2, 0, 1000, true, WD("asinh_large", th::asinh(x), asinhl(x), LN_TOL));
	grid(p / 2, 1, 1000, false, WD("acosh_large", th::acosh(x), acoshl(x), LN_TOL));
	grid(p, -52, -40, true, WD("sinc_small", th::sinc(x), (sinl(M_PIl * x) / (M_PIl * x)), 1e-14L));
	for (int k = 1; k <= 50; ++k) for (int s = -1; s <= 1; s += 2) {   // approaching the ends of the domains
		const real d = std::ldexp((real) 1, -k);
		WD("asin_end", th::asin(x), asinl(x), 1e-7L)(s * (1 - d)); WD("acos_end", th::acos(x), acosl(x), 1e-7L)(s * (1 - d));
		if (k < 45) WD("atanh_end", th::atanh(x), atanhl(x), 2e-8L + 1e-13L * fabsl(w))(s * (1 - d));
	}
}
SECTION(special_near) {
	// next to the integers, where the function switches between its two evaluations
	for (int n = 1; n < 170; ++n) for (int k = 2; k < 50; ++k) for (int s = -1; s <= 1; s += 2) {
		const real x = n + s * std::ldexp((real) 1, -k);
		WD("gamma_near", special::gamma(x), tgammal(x), 3e-6L * w)(x);
		WD("lngamma_near", special::lngamma(x), lgammal(x), 3e-6L)(x);
	}
	for (int n = 0; n < 60; ++n) for (int k = 2; k < 20; ++k) for (int s = -1; s <= 1; s += 2) {
		const real x = -n + s * std::ldexp((real) 1, -k);
		WD("gamma_near_pole", special::gamma(x), tgammal(x), 3e-6L * fabsl(w))(x);
	}
}
#endif
// the templates at every standard type, at the values where a detour through another type loses something
template<class T> static void ordering(const char* name) {
	typedef std::numeric_limits<T> N;
	std::vector<T> v = {T(0), T(1), N::max(), T(N::max() - 1), T(N::max() / 2), T(N::max() / 2 + 1), N::lowest(), T(N::lowest() + 1)};
	for (int b : {24, 31, 32, 53, 62}) if (b < N::digits) for (int d = -1; d <= 1; ++d) { v.push_back(T((T(1) << b) + d)); if (N::is_signed) v.push_back(T(-((T(1) << b) + d))); }
	for (T x : v) for (T y : v) {
		if (!vf::begin("ordering of %s: %s %s", name, std::to_string(x).c_str(), std::to_string(y).c_str())) continue;
		CHECK("max_T", th::max(x, y) == std::max(x, y)); CHECK("min_T", th::min(x, y) == std::min(x, y));
		if (x <= y) for (T z : v) CHECK("clamp_T", th::clamp(z, x, y) == (z < x ? x : z > y ? y : z));
	}
}
SECTION(round_types) {
	ordering<int>("int"); ordering<unsigned>("unsigned"); ordering<long>("long"); ordering<unsigned long>("unsigned long"); ordering<long long>("long long"); ordering<short>("short"); ordering<unsigned char>("unsigned char");
	std::vector<L> v = {0, 1, 1 + LDBL_EPSILON, 1 - LDBL_EPSILON, -1, -1 - LDBL_EPSILON, LDBL_MAX, -LDBL_MAX, LDBL_MIN, 1e-4000L, 1e4000L};
	for (L x : v) for (L y : v) {
		if (!vf::begin("ordering of long double: %.21Lg %.21Lg", x, y)) continue;
		CHECK("max_T", th::max(x, y) == std::max(x, y)); CHECK("min_T", th::min(x, y) == std::min(x, y));
		if (x <= y) for (L z : v) CHECK("clamp_T", th::clamp(z, x, y) == (z < x ? x : z > y ? y : z));
	}
}

// ---- thorough: every 32-bit float of the working range as argument ------------------------------
#ifndef THEORETICA_FLOAT_PREC
template<class F, class G> static void floats(const char* tag, F f, G g, float lo, float hi, bool neg, double tol) {
	uint32_t a, b; memcpy(&a, &lo, 4); memcpy(&b, &hi, 4);
	uint32_t step = vf::thorough() ? 1 : 4093;
	for (int s = 0; s < (neg ? 2 : 1); ++s) for (uint64_t u = a; u <= b; u += step) {
		uint32_t w = (uint32_t) u; float x; memcpy(&x, &w, 4); if (s) x = -x;
		if (!vf::begin_fast(tag, x)) continue;
		++vf::S().checks;
		double r = f((double) x), q = g((double) x);
		if (!(std::fabs(r - q) <= tol + tol * std::fabs(q))) vf::fail(tag, "x=%.9g got %.17g want %.17g", x, r, q);
	}
}
#define FLT(name, fn, ref, lo, hi, neg, tol) SECTION(float_##name) { floats(#name, [](double x) { return (double) (fn); }, [](double x) { return (double) (ref); }, lo, hi, neg, tol); }
FLT(sqrt, th::sqrt(x), std::sqrt(x), 1e-7f, 1e7f, false, T0)
FLT(cbrt, th::cbrt(x), std::cbrt(x), 1e-7f, 1e7f, true, TI)
FLT(ln, th::ln(x), std::log(x), 1e-9f, 1e9f, false, T0)
FLT(log2, th::log2(x), std::log2(x), 1e-9f, 1e9f, false, T0)
FLT(log10, th::log10(x), std::log10(x), 1e-9f, 1e9f, false, T0)
FLT(exp, th::exp(x), std::exp(x), 1e-6f, 700.f, true, T0)
FLT(sin, th::sin(x), std::sin(x), 1e-6f, 1e4f, true, T0)
FLT(cos, th::cos(x), std::cos(x), 1e-6f, 1e4f, true, T0)
FLT(atan, th::atan(x), std::atan(x), 1e-6f, 1e6f, true, TA)
FLT(asin, th::asin(x), std::asin(x), 1e-6f, 1.0f, true, TA)
FLT(acos, th::acos(x), std::acos(x), 1e-6f, 1.0f, true, TA)
FLT(tanh, th::tanh(x), std::tanh(x), 1e-6f, 300.f, true, T0)
FLT(asinh, th::asinh(x), std::asinh(x), 1e-6f, 1e5f, true, T0)
FLT(acosh, th::acosh(x), std::acosh(x), 1.001f, 1e6f, false, T0)
FLT(floor, (double) th::floor(x), std::floor(x), 1e-6f, 1e9f, true, 0)
#endif
VF_MAIN
