// The error-reporting contract: every failing call of a catalogue, in every history of bounded length,
// under the three configurations of the library (errno, errno and exceptions, exceptions only).
#include <cmath>
#include "common.h"
#include "enum.h"
#include <exception>
#include "theoretica.h"
#include "statistics/errorprop.h"
using namespace theoretica;
typedef std::vector<real> V;
#if defined(THEORETICA_ONLY_EXCEPTIONS)
static const bool THROWS = true, SETS = false;
#elif defined(THEORETICA_THROW_EXCEPTIONS)
static const bool THROWS = true, SETS = true;
#else
static const bool THROWS = false, SETS = true;
#endif
static const int OK = -1;
struct Call { const char* name; std::function<double()> f; int code; };   // code: MATH_ERRCODE or OK
static double n1(const vec<real>& v) { return v.size() ? v[0] : NAN; }
static double n2(const mat<real>& m) { return m.size() ? m(0, 0) : NAN; }
static uint64_t gen1(uint64_t, std::vector<uint64_t>&) { return 5; }

static std::vector<Call> catalogue() {
	std::vector<Call> c;
	auto bad = [&](const char* n, int code, std::function<double()> f) { c.push_back({n, f, code}); };
	auto good = [&](const char* n, std::function<double()> f) { c.push_back({n, f, OK}); };
	static const V e, v2 = {1, 2}, v3 = {1, 2, 3}, z3 = {1, 0, 3};
	// --- real functions
	bad("sqrt(-1)", OUT_OF_DOMAIN, [] { return th::sqrt(-1.0); });
	bad("ln(-1)", OUT_OF_DOMAIN, [] { return th::ln(-1.0); });
	bad("log2(-1)", OUT_OF_DOMAIN, [] { return th::log2(-1.0); });
	bad("log10(-1)", OUT_OF_DOMAIN, [] { return th::log10(-1.0); });
	bad("root(-8,2)", OUT_OF_DOMAIN, [] { return th::root(-8.0, 2); });
	bad("tan(pi/2)", DIV_BY_ZERO, [] { return th::tan(PI / 2); });
	bad("cot(0)", DIV_BY_ZERO, [] { return th::cot(0.0); });
	bad("asin(2)", OUT_OF_DOMAIN, [] { return th::asin(2.0); });
	bad("acos(-2)", OUT_OF_DOMAIN, [] { return th::acos(-2.0); });
	bad("atan2(0,0)", OUT_OF_DOMAIN, [] { return th::atan2(0.0, 0.0); });
	bad("acosh(0)", OUT_OF_DOMAIN, [] { return th::acosh(0.0); });
	bad("atanh(1.5)", OUT_OF_DOMAIN, [] { return th::atanh(1.5); });
	bad("lngamma(-1)", OUT_OF_DOMAIN, [] { return special::lngamma(-1.0); });
	bad("half_gamma(0)", OUT_OF_DOMAIN, [] { return special::half_gamma(0); });
	// --- datasets
	bad("product({})", INVALID_ARGUMENT, [] { return product(e); });
	bad("product_sum sizes", INVALID_ARGUMENT, [] { return product_sum(v2, v3); });
	bad("product_sum_squares sizes", INVALID_ARGUMENT, [] { return product_sum_squares(v2, v3); });
	bad("product_sum 3 sizes", INVALID_ARGUMENT, [] { return product_sum(v2, v3, v3); });
	bad("quotient_sum sizes", INVALID_ARGUMENT, [] { return quotient_sum(v2, v3); });
	bad("quotient_sum by zero", DIV_BY_ZERO, [] { return quotient_sum(v3, z3); });
	bad("sum_squares({})", INVALID_ARGUMENT, [] { return sum_squares(e); });
	bad("max({})", INVALID_ARGUMENT, [] { return th::max(e); });
	bad("min({})", INVALID_ARGUMENT, [] { return th::min(e); });
	bad("arithmetic_mean({})", DIV_BY_ZERO, [] { return arithmetic_mean(e); });
	bad("harmonic_mean zero", DIV_BY_ZERO, [] { return harmonic_mean(z3); });
	// --- vectors and matrices
	bad("dot sizes", INVALID_ARGUMENT, [] { return vec<real>(2, 1.0).dot(vec<real>(3, 1.0)); });
	bad("vec + sizes", INVALID_ARGUMENT, [] { return n1(vec<real>(2, 1.0) + vec<real>(3, 1.0)); });
	bad("mat / 0", DIV_BY_ZERO, [] { return n2(mat<real>(2, 2) / 0.0); });
	bad("normalize null", DIV_BY_ZERO, [] { return n1(vec<real>(2, 0.0).normalized()); });
	bad("mat + shapes", INVALID_ARGUMENT, [] { return n2(mat<real>(2, 2) + mat<real>(2, 3)); });
	bad("mat * shapes", INVALID_ARGUMENT, [] { return n2(mat<real>(2, 2) * mat<real>(3, 2)); });
	bad("det shape", INVALID_ARGUMENT, [] { return algebra::det(mat<real>(2, 3)); });
	bad("inverse shape", INVALID_ARGUMENT, [] { return n2(algebra::inverse(mat<real>(2, 3))); });
	bad("inverse singular", IMPOSSIBLE_OPERATION, [] { return n2(algebra::inverse(mat<real>(2, 2))); });
	bad("cholesky shape", INVALID_ARGUMENT, [] { return n2(algebra::decompose_cholesky(mat<real>(2, 3))); });
	bad("power shape", INVALID_ARGUMENT, [] { return algebra::eigenvalue_power(mat<real>(2, 3), vec<real>(2, 1.0)); });
	bad("euclidean sizes", INVALID_ARGUMENT, [] { return algebra::euclidean_distance(vec<real>(2, 1.0), vec<real>(3, 1.0)); });
	bad("hamming sizes", INVALID_ARGUMENT, [] { return algebra::hamming_distance(vec<real>(2, 1.0), vec<real>(3, 1.0)); });
	// --- complex, quaternions, phasors
	bad("complex inverse of 0", DIV_BY_ZERO, [] { return complex<>(0, 0).inverse().Re(); });
	bad("complex / 0", DIV_BY_ZERO, [] { return (complex<>(1, 1) / 0.0).Re(); });
	bad("quat inverse of 0", DIV_BY_ZERO, [] { return quat<real>(0, 0, 0, 0).inverse().a; });
	bad("phasor inverse of 0", DIV_BY_ZERO, [] { return phasor<real>(0, 1).inverse().modulus; });
	// --- dual numbers
	bad("dual inverse of 0", DIV_BY_ZERO, [] { return dual(0, 1).inverse().Re(); });
	bad("dual2 inverse of 0", DIV_BY_ZERO, [] { return dual2(0, 1, 1).inverse().Re(); });
	bad("multidual / 0", DIV_BY_ZERO, [] { return (multidual<2>(1, {1, 1}) / multidual<2>(0, {1, 1})).Re(); });
	bad("ln(dual)", OUT_OF_DOMAIN, [] { return th::ln(dual(-1, 1)).Re(); });
	bad("asin(dual2)", OUT_OF_DOMAIN, [] { return th::asin(dual2(2, 1, 1)).Re(); });
	bad("acos(multidual)", OUT_OF_DOMAIN, [] { return th::acos(multidual<2>(2, {1, 1})).Re(); });
	// --- polynomials, interpolation, calculus
	bad("polynomial / 0", DIV_BY_ZERO, [] { return (polynomial<real>({1, 2}) / polynomial<real>({0})).coeff[0]; });
	bad("polynomial / scalar 0", DIV_BY_ZERO, [] { return (polynomial<real>({1, 2}) / 0.0).coeff[0]; });
	bad("quadratic_roots order", IMPOSSIBLE_OPERATION, [] { return polynomial<real>({1, 2}).quadratic_roots()[0].Re(); });
	bad("smoothstep", DIV_BY_ZERO, [] { return smoothstep(1.0, 1.0, 0.5); });
	bad("bezier", INVALID_ARGUMENT, [] { return bezier(std::vector<vec2>(1), 0.5)[0]; });
	bad("bezier t", INVALID_ARGUMENT, [] { return bezier(std::vector<vec2>{{0, 0}, {1, 1}}, 2.0)[0]; });
	bad("integral_midpoint", DIV_BY_ZERO, [] { return integral_midpoint([](real x) { return x; }, 0, 1, 0); });
	bad("integral_simpson", DIV_BY_ZERO, [] { return integral_simpson([](real x) { return x; }, 0, 1, 0); });
	bad("integral_laguerre", INVALID_ARGUMENT, [] { return integral_laguerre([](real x) { return x; }, 3); });
	bad("integral_gauss", INVALID_ARGUMENT, [] { return integral_gauss([](real x) { return x; }, v2, v3); });
	bad("integral_inf_riemann", NO_ALGO_CONVERGENCE, [] { return integral_inf_riemann([](real) -> real { return 1.0; }, 0); });
	// --- optimization
	bad("root_bisect", INVALID_ARGUMENT, [] { return root_bisect([](real x) { return x * x + 1; }, -1, 1); });
	bad("root_itp", INVALID_ARGUMENT, [] { return root_itp([](real x) { return x * x + 1; }, -1, 1); });
	bad("root_bisect limit", NO_ALGO_CONVERGENCE, [] { return root_bisect([](real x) { return x - 0.3; }, -1, 1, 1e-8, 2); });
	bad("root_newton limit", NO_ALGO_CONVERGENCE, [] { return root_newton(real_function([](real x) { return x * x + 1; }), real_function([](real x) { return 2 * x; }), 0.5); });
	bad("goldensection", INVALID_ARGUMENT, [] { return minimize_goldensection([](real x) { return x * x; }, 1, -1); });
	// --- statistics
	bad("variance few", INVALID_ARGUMENT, [] { return stats::variance(V{1.0}); });
	bad("covariance sizes", INVALID_ARGUMENT, [] { return stats::covariance(v2, v3); });
	bad("tss({})", INVALID_ARGUMENT, [] { return stats::total_sum_squares(e); });
	bad("chi_square zero", DIV_BY_ZERO, [] { return stats::chi_square(v3, v3, z3); });
	bad("ols degenerate", DIV_BY_ZERO, [] { real a = 7, b = 7; regression::ols_linear(V{1, 1, 1}, v3, a, b); return a; });
	bad("gaussian theta", INVALID_ARGUMENT, [] { return distribution::gaussian(1, vec<real>(3, 1.0)); });
	bad("erlang", INVALID_ARGUMENT, [] { return distribution::erlang(1, 0u, 1); });
	bad("pareto", OUT_OF_DOMAIN, [] { return distribution::pareto(2, 1, -1); });
	bad("rand_exponential", DIV_BY_ZERO, [] { PRNG g(gen1, 1); return rand_exponential(0, g); });
	bad("rand_uniform theta", INVALID_ARGUMENT, [] { PRNG g(gen1, 1); return rand_uniform(v3, g); });
	bad("rand_diceroll", INVALID_ARGUMENT, [] { PRNG g(gen1, 1); return rand_diceroll(0u, g); });
	// --- successful calls of the same functions
	good("sqrt(2)", [] { return th::sqrt(2.0); });
	good("sqrt(0)", [] { return th::sqrt(0.0); });
	good("ln(2)", [] { return th::ln(2.0); });
	good("log2(8)", [] { return th::log2(8.0); });
	good("log10(3)", [] { return th::log10(3.0); });
	good("exp(1)", [] { return th::exp(1.0); });
	good("sin(1)", [] { return th::sin(1.0); });
	good("tan(1)", [] { return th::tan(1.0); });
	good("asin(1)", [] { return th::asin(1.0); });
	good("acos(-1)", [] { return th::acos(-1.0); });
	good("atan(3)", [] { return th::atan(3.0); });
	good("atan2(1,0)", [] { return th::atan2(1.0, 0.0); });
	good("root(-8,3)", [] { return th::root(-8.0, 3); });
	good("gamma(4.5)", [] { return special::gamma(4.5); });
	good("mean", [] { return stats::mean(v3); });
	good("variance", [] { return stats::variance(v3); });
	good("covariance", [] { return stats::covariance(v3, z3); });
	good("dot", [] { return vec<real>(3, 1.0).dot(vec<real>(3, 2.0)); });
	good("inverse", [] { return n2(algebra::inverse(mat<real>({{2, 1}, {1, 1}}))); });
	good("solve", [] { return n1(algebra::solve(mat<real>({{2, 1}, {1, 1}}), vec<real>({1, 2}))); });
	good("det singular", [] { return algebra::det(mat<real>({{1, 2}, {2, 4}})); });
	good("cholesky", [] { return n2(algebra::decompose_cholesky(mat<real>({{4, 2}, {2, 3}}))); });
	good("power", [] { return algebra::eigenvalue_power(mat<real>({{2, 0}, {0, 1}}), vec<real>({1, 1})); });
	good("complex division", [] { return (complex<>(1, 2) / complex<>(3, -1)).Re(); });
	good("complex sqrt", [] { return th::sqrt(complex<>(-1, 0)).Im(); });
	good("quat inverse", [] { return quat<real>(1, 2, 3, 4).inverse().a; });
	good("dual division", [] { return (dual(1, 2) / dual(3, 1)).Re(); });
	good("gradient", [] { return autodiff::gradient([](autodiff::dvec_t<2> x) { return x[0] * x[1]; }, vec<real, 2>({1, 2}))[0]; });
	good("polynomial division", [] { return (polynomial<real>({1, 2, 1}) / polynomial<real>({1, 1})).coeff[0]; });
	good("quadratic_roots", [] { return polynomial<real>({2, -3, 1}).quadratic_roots()[0].Re(); });
	good("splines", [] { return cubic_splines(v3, z3)[0].a; });
	good("bezier ok", [] { return bezier(std::vector<vec2>{{0, 0}, {1, 1}}, 0.5)[0]; });
	good("romberg", [] { return integral_romberg([](real x) { return x * x; }, 0, 1, 6); });
	good("hermite", [] { return integral_hermite([](real x) { return x * x; }); });
	good("root_bisect ok", [] { return root_bisect([](real x) { return x - 0.3; }, -1, 1); });
	good("root_newton ok", [] { return root_newton(real_function([](real x) { return x * x - 2; }), real_function([](real x) { return 2 * x; }), 1.0); });
	good("goldensection ok", [] { return minimize_goldensection([](real x) { return x * x; }, -1, 2); });
	good("multi_minimize", [] { return multi_minimize<2>([](autodiff::dvec_t<2> x) { return x[0] * x[0] + x[1] * x[1]; }, vec<real, 2>({1, 1}))[0]; });
	good("rk4", [] { return ode::solve_rk4([](real, const vec<real, 1>& x) { return x; }, vec<real, 1>({1.0}), 0, 1, 0.25).x[1][0]; });
	good("pvalue", [] { return stats::pvalue_chi_squared(3, 4); });
	good("linear fit", [] { return regression::linear_model(v3, z3).A; });
	good("histogram", [] { histogram h(v3, 2); return h.mean(); });
	good("gaussian", [] { return distribution::gaussian(1, 0, 1); });
	good("rand_uniform", [] { PRNG g = PRNG::xoshiro(3); return rand_uniform(0, 1, g); });
	return c;
}
static bool same(double a, double b) { return a == b || (a != a && b != b); }
// performs one call and checks how it ends; `before` is the errno left by the history
static void perform(const Call& c, int before) {
	std::string n = c.name;
	bool thrown = false, base = false; double r = 0; MATH_ERRCODE code = NO_ERROR;
	errno = before;
	try { r = c.f(); }
#if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
	catch (const math_exception& x) {
		int keep = errno;
		thrown = true; code = x.err_code();
		base = std::is_convertible<const math_exception*, const std::exception*>::value;
		CHECKF("describes: " + n, x.what() && std::string(x.what()).size() && std::string(x.what()) != "Unknown error" && std::string(x.what()) != "No error", "what() = %s", x.what());
		CHECKF("names the function: " + n, !x.get_function_name().empty() && !x.get_file_name().empty() && x.get_line_number() > 0, "no function, file or line");
		CHECKF("text: " + n, x.to_string().find(x.what()) != std::string::npos && x.to_string().find(x.get_function_name()) != std::string::npos, "%s", x.to_string().c_str());
		errno = keep;
	}
#endif
	catch (...) { thrown = true; code = NO_ERROR; }
	int after = errno;
	vf::state(vf::mix(std::hash<std::string>()(n), vf::mix(before, after)));
	if (c.code == OK) {
		CHECKF("succeeds: " + n, !thrown, "exception raised by a valid call");
		CHECKF("no spurious error: " + n, after == before, "errno %d became %d", before, after);
		CHECKF("value: " + n, thrown || r == r, "NaN from a valid call");
		return;
	}
	const int want = th_errcode_to_errno((MATH_ERRCODE) c.code);
	if (THROWS) {
		CHECKF("throws: " + n, thrown, "no exception");
		CHECKF("exception code: " + n, code == c.code, "code %d, expected %d", code, c.code);
		CHECKF("standard exception: " + n, base, "not a std::exception");
	} else {
		CHECKF("no exception: " + n, !thrown, "exception in the errno configuration");
		CHECKF("returns NaN: " + n, thrown || r != r, "returned %g", r);
	}
	CHECKF("errno: " + n, after == (SETS ? want : before), "errno %d, expected %d", after, SETS ? want : before);
}
SECTION(single) { auto c = catalogue(); for (auto& x : c) for (int before : {0, EDOM, ERANGE, EINVAL, ENOENT, EINTR}) if (vf::begin("errno %d, %s", before, x.name)) perform(x, before); }
SECTION(pairs) { auto c = catalogue(); for (auto& x : c) for (auto& y : c) if (vf::begin("%s, then %s", x.name, y.name)) { errno = 0; try { x.f(); } catch (...) {} int b = errno; perform(y, b); } }
SECTION(histories) {
	// every history of bounded length of a small alphabet; the outcome of each call depends on the call only
	auto all = catalogue(); std::vector<size_t> pick;
	for (const char* n : {"sqrt(-1)", "ln(-1)", "tan(pi/2)", "product({})", "inverse singular", "root_newton limit", "complex / 0", "ln(dual)", "sqrt(2)", "inverse", "variance", "root_newton ok", "histogram"})
		for (size_t i = 0; i < all.size(); ++i) if (!strcmp(all[i].name, n)) pick.push_back(i);
	std::vector<double> ref(all.size(), 0);
	for (size_t i : pick) { try { ref[i] = all[i].f(); } catch (...) { ref[i] = 1e99; } }
	words_upto(pick, 1, vf::thorough() ? 4 : 3, [&](const std::vector<size_t>& w) {
		std::string t; for (size_t i : w) { t += all[i].name; t += "; "; }
		if (!vf::begin("%s", t.c_str())) return;
		errno = 0; int e = 0;
		for (size_t i : w) {
			errno = e; double r; try { r = all[i].f(); } catch (...) { r = 1e99; }
			int a = errno;
			CHECKF(std::string("history: ") + all[i].name, same(r, ref[i]), "result %.17g, alone %.17g", r, ref[i]);
			int want = all[i].code == OK || !SETS ? e : th_errcode_to_errno((MATH_ERRCODE) all[i].code);
			CHECKF(std::string("history errno: ") + all[i].name, a == want, "errno %d, expected %d", a, want);
			e = want;
		}
	});
}
SECTION(codes) {
	struct { MATH_ERRCODE c; int e; } T[] = {{NO_ERROR, 0}, {DIV_BY_ZERO, ERANGE}, {OUT_OF_DOMAIN, EDOM}, {OUT_OF_RANGE, ERANGE}, {IMPOSSIBLE_OPERATION, EDOM}, {NO_ALGO_CONVERGENCE, ERANGE}, {INVALID_ARGUMENT, EINVAL}};
	for (auto& t : T) if (vf::begin("code %d", t.c)) {
		EQ("errno of the code", th_errcode_to_errno(t.c), t.e);
#if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
		for (real v : {0.0, -2.5, 1e300}) {
			math_exception x(t.c, "fun", "file.h", 17, v);
			EQ("exception code", (int) x.err_code(), (int) t.c); CHECK("exception function", x.get_function_name() == "fun"); CHECK("exception file", x.get_file_name() == "file.h"); EQ("exception line", x.get_line_number(), 17u); EQ("exception value", x.get_value(), v);
			CHECK("described", std::string(x.what()) != "Unknown error" && x.to_string().find("Unknown") == std::string::npos);
			std::ostringstream o; o << x; CHECK("streamed", o.str() == x.to_string() && std::string(x) == x.to_string());
			try { throw x; } catch (const math_exception& y) { EQ("copied", (int) y.err_code(), (int) t.c); }
		}
#endif
	}
	for (real x : {0.0, -0.0, 1.0, -1.0, (real) DBL_MAX, (real) DBL_MIN, (real) 4.9e-324, -(real) DBL_MAX}) if (vf::begin("finite %g", x)) { CHECK("not NaN", !is_nan(x)); CHECK("not infinite", !is_inf(x)); }
	if (vf::begin("NaN and infinity")) { CHECK("nan()", th::nan() != th::nan() && is_nan(th::nan()) && !is_inf(th::nan())); CHECK("inf()", is_inf(th::inf()) && is_inf(-th::inf()) && !is_nan(th::inf()) && th::inf() > DBL_MAX);
		CHECK("structures", is_nan(complex<>(th::nan(), th::nan())) && !is_nan(complex<>(1, 2)) && is_nan(vec<real>(2, th::nan())) && !is_nan(vec<real>(2, 1.0))); }
}
VF_MAIN
