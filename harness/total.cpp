// Totality of the scalar functions: every binary exponent (denormals included) x significands x sign,
// plus NaN, infinities, zeros and the boundaries of the integer types, has an answer.
#include "common.h"
#include "theoretica.h"
#include <climits>
using namespace theoretica;
typedef long double L;
#ifdef THEORETICA_FLOAT_PREC
static const int EMIN = -149, EMAX = 127; static const double TOL = 1e-3; static const real RMAX = std::numeric_limits<float>::max();
#else
static const int EMIN = -1074, EMAX = 1023; static const double TOL = 1e-6; static const real RMAX = std::numeric_limits<double>::max();
#endif
static const real RMIN = std::numeric_limits<real>::min();
static const real INF = std::numeric_limits<real>::infinity();

// every exponent x the 2^(p-1) significands of p bits and the neighbours of the power of two
template<class F> static void every(int p, F f) {
	const real sp[] = { std::numeric_limits<real>::quiet_NaN(), INF, 0, 1, RMAX, RMIN, std::numeric_limits<real>::denorm_min(),
		std::numeric_limits<real>::epsilon(), (real) 2147483647.0, (real) 2147483648.0, (real) 2147483649.0, (real) 4294967295.0,
		(real) 4294967296.0, (real) 9223372036854775808.0, (real) 18446744073709551616.0, 170, 171, 171.5, 172, 709, 710, 711, 745, 746, 800, 1.5, 2.5, 3 };
	for (int s = 0; s < 2; ++s) {
		for (real x : sp) f(s ? -x : x);
		for (int e = EMIN; e <= EMAX; ++e) {
			const real b = (real) std::ldexp(1.0, e);
			for (long m = 1L << (p - 1); m < (1L << p); ++m) {
				real x = (real) std::ldexp((double) m, e - p + 1);
				if (x != 0) f(s ? -x : x);
			}
			real lo = std::nextafter(b, (real) 0), hi = std::nextafter(b, INF);
			if (lo != 0) f(s ? -lo : lo);
			f(s ? -hi : hi);
		}
	}
}

// want NaN: got NaN. Overflowing results: infinite with the right sign, or a finite value of that size.
static void judge(const std::string& tag, real x, real got, L want, double tol = TOL) {
	++vf::S().checks;
	double g = (double) got, w = (double) want;
	if (want != want) { if (got == got) vf::fail(tag, "f(%.17g) = %.17g, expected NaN", (double) x, g); return; }
	const L big = (L) RMAX * 0.25L;
	if (fabsl(want) > big) {
		bool ok = got == got && ((want > 0) == (got > 0)) && fabsl((L) got) > big / 2;
		if (!ok) vf::fail(tag, "f(%.17g) = %.17g, expected overflow to %s infinity", (double) x, g, want > 0 ? "positive" : "negative");
		return;
	}
	// gradual underflow of an intermediate (a reciprocal of a huge value) flushes to zero
	const double atol = std::is_same<real, float>::value ? 1e-6 : 1e-7;
	if (!vf::near_(g, w, tol, atol)) vf::fail(tag, "f(%.17g) = %.17g, expected %.17g", (double) x, g, w);
}

static int P() { return vf::thorough() ? (std::is_same<real, float>::value ? 12 : 9) : 4; }
template<class F, class G> static void uni(const char* tag, F f, G ref, double tol = TOL) {
	every(P(), [&](real x) {
		if (!vf::begin_fast(tag, x)) return;
		real r = f(x);
		vf::state(vf::mix(vf::hd((double) r), (uint64_t) (uintptr_t) tag));
		L w = x != x ? (L) NAN : (L) ref((L) x);
		judge(tag, x, r, w, tol);
	});
}
// where the reference does not bind (outside of the working range) the call still returns
template<class F> static void ends(const char* tag, F f, bool nanprop = true) {
	every(P(), [&](real x) {
		if (!vf::begin_fast(tag, x)) return;
		real r = f(x);
		++vf::S().checks;
		vf::state(vf::mix(vf::hd((double) r), (uint64_t) (uintptr_t) tag));
		if (nanprop && x != x && r == r) vf::fail(tag, "f(NaN) = %.17g, expected NaN", (double) r);
	});
}
#define U(name, expr, refexpr) uni(name, [](real x) -> real { return expr; }, [](L x) -> L { return refexpr; })
static const L QN = NAN;

SECTION(c06_powers) {
	U("square", th::square(x), x * x);
	U("cube", th::cube(x), x * x * x);
	U("sqrt", th::sqrt(x), x < 0 ? QN : sqrtl(x));
	U("cbrt", th::cbrt(x), cbrtl(x));
	U("abs", th::abs(x), fabsl(x));
	U("identity", th::identity(x), x);
	U("radians", th::radians(x), x * (3.14159265358979323846L / 180));
	U("degrees", th::degrees(x), x * (180 / 3.14159265358979323846L));
	// relative accuracy over the whole normal range
	every(P(), [](real x) {
		if (!(std::fabs(x) >= RMIN && std::fabs(x) <= RMAX)) return;
		if (!vf::begin_fast("relative", x)) return;
		if (x > 0) NEAR("sqrt_relative", th::sqrt(x), sqrtl(x), (std::is_same<real, float>::value ? 1e-5 : 1e-7), 0);
		NEAR("cbrt_relative", th::cbrt(x), cbrtl(x), (std::is_same<real, float>::value ? 1e-5 : 1e-7), 0);
	});
}
SECTION(c06_logs) {
	U("ln", th::ln(x), x < 0 ? QN : logl(x));
	U("log2", th::log2(x), x < 0 ? QN : log2l(x));
	U("log10", th::log10(x), x < 0 ? QN : log10l(x));
	U("asinh", th::asinh(x), asinhl(x));
	U("acosh", th::acosh(x), x < 1 ? QN : acoshl(x));
	U("atanh", th::atanh(x), fabsl(x) > 1 ? QN : atanhl(x));
}
SECTION(c06_exps) {
	U("exp", th::exp(x), expl(x));
	U("expm1", th::expm1(x), expm1l(x));
	U("sinh", th::sinh(x), sinhl(x));
	U("cosh", th::cosh(x), coshl(x));
	U("tanh", th::tanh(x), tanhl(x));
	U("sigmoid", th::sigmoid(x), 1 / (1 + expl(-x)));
	uni("coth", [](real x) -> real { return std::fabs(x) < 0.0625 ? th::coth(x), (real) 0 : th::coth(x); },
		[](L x) -> L { return fabsl(x) < 0.0625 ? 0 : 1 / tanhl(x); }, TOL * 10);
}
SECTION(c06_trig) {
	// within the reducible range the value, beyond it a NaN together with an error
	auto trig = [](const char* tag, real (*f)(real), L (*g)(L)) {
		every(P(), [&](real x) {
			if (!vf::begin_fast(tag, x)) return;
			errno = 0; real r = f(x); int e = errno;
			vf::state(vf::mix(vf::hd((double) r), (uint64_t) (uintptr_t) tag));
			real lim = std::is_same<real, float>::value ? 1 << 10 : 1 << 24;
			if (x != x) { judge(tag, x, r, QN); return; }
			if (std::fabs(x) <= lim) {
				if (tag[0] == 't' || tag[1] == 'o' && tag[2] == 't') { if (std::fabs(g(x)) > 1e3 || r != r) return; }
				judge(tag, x, r, g(x), std::is_same<real, float>::value ? 2e-3 : 1e-5);
			} else if (std::fabs(x) > 1e19) {
				CHECKF(std::string(tag) + "_unreducible", r != r && e != 0, "f(%.17g) = %.17g errno=%d, expected NaN with an error", (double) x, (double) r, e);
			} else if (tag[0] == 's' || (tag[0] == 'c' && tag[2] == 's')) {
				CHECKF(std::string(tag) + "_bounded", r != r || std::fabs(r) <= 1 + 1e-6, "f(%.17g) = %.17g", (double) x, (double) r);
			}
		});
	};
	trig("sin", th::sin, sinl); trig("cos", th::cos, cosl); trig("tan", th::tan, tanl);
	trig("cot", th::cot, [](L x) -> L { return 1 / tanl(x); });
	U("atan", th::atan(x), atanl(x));
	U("asin", th::asin(x), fabsl(x) > 1 ? QN : asinl(x));
	U("acos", th::acos(x), fabsl(x) > 1 ? QN : acosl(x));
	ends("sinc", [](real x) { return th::sinc(x); });
}
SECTION(c06_special) {
	uni("gamma", [](real x) -> real { return x < 0.0625 ? special::gamma(x), (real) 0 : special::gamma(x); }, [](L x) -> L { return x < 0.0625 ? 0 : tgammal(x); }, TOL * 100);
	uni("pi", [](real x) -> real { return x < -0.9 ? special::pi(x), (real) 0 : special::pi(x); }, [](L x) -> L { return x < -0.9 ? 0 : tgammal(x + 1); }, TOL * 100);
	// zero to machine precision near 1 and 2, hence the absolute tolerance
	uni("lngamma", [](real x) -> real { return x < 1e-30f ? special::lngamma(x), (real) 0 : special::lngamma(x); }, [](L x) -> L { return x < 1e-30f ? 0 : lgammal(x); }, TOL * 100);
	ends("half", [](real x) { return th::heaviside(x); }, false);
	ends("sgn", [](real x) { return (real) th::sgn(x); }, false);
}
SECTION(c06_root) {
	for (int n = -9; n <= 9; ++n)
		every(vf::thorough() ? 6 : 2, [&](real x) {
			if (!vf::begin("root(%.17g, %d)", (double) x, n)) return;
			errno = 0; real r = th::root(x, n); int e = errno;
			vf::state(vf::mix(vf::hd((double) r), n));
			L w = n == 0 || x != x || (x < 0 && n % 2 == 0) ? QN : std::pow(fabsl((L) x), 1.0L / n) * (x < 0 ? -1 : 1);
			// Newton's method may report that its documented iteration limit was reached
			if (r != r && w == w && !std::isinf(x)) { CHECKF("root_unreported", e != 0, "root(%.17g, %d) is NaN without an error", (double) x, n); return; }
			if (std::fabs(x) < RMIN && (x != 0 || n < 0)) return;
			judge("root", x, r, w, 1e-4);
		});
}
SECTION(c06_pow) {
	const int ns[] = { INT_MIN, INT_MIN + 1, -1000, -64, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 1000 };
	for (int n : ns) {
		bool slow = n < -100000 || n > 100000;
		auto one = [&](real x) {
			if (!vf::begin("pow(%.17g, %d)", (double) x, n)) return;
			real r = th::pow(x, n);
			vf::state(vf::mix(vf::hd((double) r), n));
			if (x == 0 && n < 0) return;
			L w = x != x && n != 0 ? QN : powl((L) x, (L) n);
			// a negative power is the reciprocal of the positive one, which may overflow first
			if (n < 0 && w != 0 && fabsl(w) < 4 / (L) RMAX) w = 0;
			judge("pow", x, r, w, 1e-5);
		};
		if (slow) { const real v[] = { 1, -1, 2, 0.5, INF }; for (real x : v) one(x); }
		else every(vf::thorough() ? 6 : 2, one);
	}
}
SECTION(c06_pairs) {
	// every pair of signed powers of two (step 61 / 7 in the exponent) and special values
	std::vector<real> v;
	const int st = vf::thorough() ? (EMAX > 200 ? 23 : 3) : (EMAX > 200 ? 113 : 17);
	for (int e = EMIN; e <= EMAX; e += st) { real b = (real) std::ldexp(1.25, e); if (b != 0 && b <= RMAX) { v.push_back(b); v.push_back(-b); } }
	for (real x : { (real) 0, (real) 1, (real) -1, (real) 0.5, (real) 3, (real) -2.5, RMAX, -RMAX, RMIN, INF, -INF, (real) NAN }) v.push_back(x);
	for (real a : v) for (real b : v) {
		if (vf::begin("atan2(%.17g, %.17g)", (double) a, (double) b)) {
			real r = th::atan2(a, b);
			vf::state(vf::hd((double) r));
			L w = atan2l((L) a, (L) b);
			if ((std::isinf(a) && std::isinf(b)) || (a == 0 && b == 0)) w = QN;
			// the angle -pi of the negative axis approached from below, and the signed zeros of y/x
			if (!(r == r && w == w && b < 0 && fabsl(fabsl(r) - fabsl(w)) < 1e-6 && fabsl(a / b) < 1e-6))
				judge("atan2", a, r, w);
		}
		if (a > 0 && vf::begin("powf(%.17g, %.17g)", (double) a, (double) b)) {
			real r = th::powf(a, b);
			vf::state(vf::hd((double) r));
			if (a == 1 && std::isinf(b) || std::isinf(a) && b == 0) continue;
			L w = b != b || a != a ? QN : powl((L) a, (L) b);
			if (std::fabs(b) * std::fabs(std::log2(a)) > 900 * (EMAX > 200 ? 1 : 0.1) && std::fabs(b) * std::fabs(std::log2(a)) < 1200) continue;
			judge("powf", a, r, w, 1e-4);
		}
		if (vf::begin("beta(%.17g, %.17g)", (double) a, (double) b)) {
			real r = special::beta(a, b);
			vf::state(vf::hd((double) r));
			CHECKF("beta_nan", r != r || (a == a && b == b), "beta(%.17g, %.17g) = %.17g", (double) a, (double) b, (double) r);
		}
	}
}
VF_MAIN
