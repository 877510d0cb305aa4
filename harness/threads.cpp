// Concurrency: element-wise parallel functions and independent calls from several threads, explored
// with the controlled scheduler of explore.cpp on the real code (compiled with -fsanitize=thread
// callbacks, which explore.cpp implements).
#include <atomic>
#include <cmath>
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
#include "explore.h"
using namespace theoretica;
typedef std::vector<real> V;
static bool same(real a, real b) { return vf::near_(a, b, 1e-12, 1e-300); }
template<class A> static bool same(const complex<A>& a, const complex<A>& b) { return same(a.Re(), b.Re()) && same(a.Im(), b.Im()); }
static bool same(const dual& a, const dual& b) { return same(a.Re(), b.Re()) && same(a.Dual(), b.Dual()); }
static bool same(const dual2& a, const dual2& b) { return same(a.Re(), b.Re()) && same(a.Dual1(), b.Dual1()) && same(a.Dual2(), b.Dual2()); }
static uint64_t hv(real a) { return vf::hd(a); }
template<class X> static uint64_t hv(const X& a) { return vf::hd(a.Re()); }
static const double X[] = {0.5, -0.75, 2, 0, -3, 1e-3, 40, 0.25, -1, 7};
template<class E> static E elem(size_t i, int k) { return E(X[(i + 3 * k) % 10]); }
template<> complex<real> elem(size_t i, int k) { return complex<real>(X[(i + 3 * k) % 10], X[(i + k + 1) % 10]); }
template<> dual elem(size_t i, int k) { return dual(X[(i + 3 * k) % 10], X[(i + k + 1) % 10]); }
template<> dual2 elem(size_t i, int k) { return dual2(X[(i + 3 * k) % 10], X[(i + k + 1) % 10], X[(i + k + 4) % 10]); }

static void account(const sched::Result& r) {
	vf::count("schedules", r.schedules); vf::count("visible operations", r.points); vf::count("scheduling choices", r.choices); vf::count("synchronisation operations", r.syncs);
	if (!r.complete) vf::count("explorations stopped at the cap");
	CHECKF("race", r.error.empty(), "%s", r.error.c_str());
}
static void alive() { vf::alive(); }
// one parallel call under every schedule, against the sequential evaluation
template<class C, class P, class Q> static void par(const char* fn, const char* ty, size_t n, int threads, sched::Mode mode, int bound, uint64_t cap, P parallel_f, Q scalar_f) {
	typedef std::decay_t<decltype(std::declval<C>()[0])> E;
	for (int k = 0; k < (mode == sched::ALL ? 1 : 2); ++k) {
		if (!vf::begin("parallel::%s of %s with %zu elements (set %d), %d threads, %s", fn, ty, n, k, threads, mode == sched::ALL ? "all accesses" : "reduced")) continue;
		C v; v.resize(n); for (size_t i = 0; i < n; ++i) v[i] = elem<E>(i, k);
		const C v0 = v;
		std::vector<E> want; for (size_t i = 0; i < n; ++i) want.push_back(scalar_f(v[i]));
		C res;
		auto r = sched::explore(threads, mode, bound, cap, [&] { res = parallel_f((const C&) v); }, [&] { alive();
			EQ(std::string("size_") + fn, res.size(), n);
			for (size_t i = 0; i < n && i < res.size(); ++i) { CHECKF(std::string("value_") + fn, same(res[i], want[i]), "element %zu of %zu differs from the sequential value", i, n); CHECK(std::string("input_") + fn, same(v[i], v0[i])); vf::state(vf::mix(hv(res[i]), i)); }
		});
		account(r);
	}
}
#define ALLF(M) M(square) M(cube) M(abs) M(sqrt) M(exp) M(ln) M(sin) M(cos) M(tan)
#define REALF(M) M(cbrt) M(log2) M(log10) M(cot) M(asin) M(acos) M(atan) M(sinh) M(cosh) M(tanh) M(coth)
#define ONE(f) par<C>(#f, ty, n, t, mode, bound, cap, [](const C& v) { return parallel::f(v); }, [](const E& x) { return (E) theoretica::f(x); });
template<class C, class E> static void real_set(const char* ty, size_t n, int t, sched::Mode mode, int bound, uint64_t cap) {
	ALLF(ONE) REALF(ONE)
	par<C>("pow", ty, n, t, mode, bound, cap, [](const C& v) { return parallel::pow(v, 3); }, [](const E& x) { return theoretica::pow(x, 3); });
	par<C>("powf", ty, n, t, mode, bound, cap, [](const C& v) { return parallel::powf(v, 1.5); }, [](const E& x) { return theoretica::powf(x, 1.5); });
	par<C>("apply_function", ty, n, t, mode, bound, cap, [](const C& v) { return parallel::apply_function([](E x) { return x * E(2) + E(1); }, v); }, [](const E& x) { return x * E(2) + E(1); });
}
#define DUALF(M) M(square) M(cube) M(sqrt) M(exp) M(ln) M(sin) M(cos) M(tan) M(asin) M(acos) M(atan)
template<class C, class E> static void dual_set(const char* ty, size_t n, int t, sched::Mode mode, int bound, uint64_t cap) {
	DUALF(ONE)
	par<C>("apply_function", ty, n, t, mode, bound, cap, [](const C& v) { return parallel::apply_function([](E x) { return x * x; }, v); }, [](const E& x) { return x * x; });
}
#define CPLXF(M) M(square) M(cube) M(sqrt) M(exp) M(ln) M(sin) M(cos) M(tan) M(asin) M(acos) M(atan)
template<class C, class E> static void cplx_set(const char* ty, size_t n, int t, sched::Mode mode, int bound, uint64_t cap) {
	CPLXF(ONE)
	par<C>("apply_function", ty, n, t, mode, bound, cap, [](const C& v) { return parallel::apply_function([](E x) { return x * x; }, v); }, [](const E& x) { return x * x; });
}
SECTION(a09_reduced_real) {
	for (size_t n = 0; n <= (vf::thorough() ? 17u : 9u); ++n) for (int t = 1; t <= (vf::thorough() ? 8 : 5); ++t) { real_set<V, real>("std::vector", n, t, sched::REDUCED, 2, 5000); real_set<vec<real>, real>("vec", n, t, sched::REDUCED, 2, 5000); }
}
SECTION(a09_reduced_static) {
	for (int t = 1; t <= (vf::thorough() ? 8 : 5); ++t) { real_set<vec<real, 1>, real>("vec1", 1, t, sched::REDUCED, 2, 5000); real_set<vec<real, 3>, real>("vec3", 3, t, sched::REDUCED, 2, 5000); real_set<vec<real, 7>, real>("vec7", 7, t, sched::REDUCED, 2, 5000); }
}
SECTION(a09_reduced_algebras) {
	for (size_t n = 0; n <= (vf::thorough() ? 9u : 5u); ++n) for (int t = 1; t <= (vf::thorough() ? 6 : 4); ++t) {
		cplx_set<vec<complex<real>>, complex<real>>("vec of complex", n, t, sched::REDUCED, 2, 5000);
		dual_set<vec<dual>, dual>("vec of dual", n, t, sched::REDUCED, 2, 5000); dual_set<std::vector<dual2>, dual2>("std::vector of dual2", n, t, sched::REDUCED, 2, 5000);
	}
}
SECTION(a09_all_2) { for (size_t n = 1; n <= 4; ++n) real_set<V, real>("std::vector", n, 2, sched::ALL, vf::thorough() ? 4 : 2, vf::thorough() ? 400000 : 4000); }
SECTION(a09_all_3) { for (size_t n = 2; n <= (vf::thorough() ? 5u : 3u); ++n) real_set<vec<real>, real>("vec", n, 3, sched::ALL, vf::thorough() ? 3 : 1, vf::thorough() ? 200000 : 3000); }
SECTION(a09_all_algebras) { for (size_t n = 2; n <= (vf::thorough() ? 3u : 2u); ++n) { cplx_set<vec<complex<real>>, complex<real>>("vec of complex", n, 2, sched::ALL, 2, vf::thorough() ? 50000 : 1500); dual_set<vec<dual>, dual>("vec of dual", n, 2, sched::ALL, 2, vf::thorough() ? 50000 : 1500); } }
// the function is evaluated exactly once per element, whatever the schedule
SECTION(a09_once) {
	for (size_t n = 0; n <= 12; ++n) for (int t = 1; t <= 6; ++t) {
		if (!vf::begin("calls of the function, %zu elements, %d threads", n, t)) continue;
		V v(n); for (size_t i = 0; i < n; ++i) v[i] = (real) i;
		std::vector<int> calls; V res;
		auto r = sched::explore(t, sched::REDUCED, 2, 5000, [&] { calls.assign(n, 0); res = parallel::apply_function([&](real x) { ++calls[(size_t) x]; return -x; }, v); }, [&] {
			for (size_t i = 0; i < n; ++i) { EQ("calls", calls[i], 1); EQ("called_value", res[i], -(real) i); }
		});
		account(r);
	}
}
// the explorer itself, on programs with known behaviour (independent of the library)
static int shared_counter; static std::atomic<int> atomic_counter;
SECTION(a09_explorer) {
	if (vf::begin("unprotected counter: the race is found")) { auto r = sched::explore(2, sched::REDUCED, 2, 1000, [] { shared_counter = 0; sched::threads({[] { ++shared_counter; }, [] { ++shared_counter; }}); }, [] {}); CHECK("explorer_race", !r.error.empty()); }
	if (vf::begin("load/store on an atomic: the lost update is found")) {
		std::set<int> seen; auto r = sched::explore(2, sched::REDUCED, 1, 1000, [] { atomic_counter = 0; sched::threads({[] { atomic_counter = atomic_counter + 1; }, [] { atomic_counter = atomic_counter + 1; }}); }, [&] { seen.insert(atomic_counter); });
		CHECK("explorer_lost_update", r.error.empty() && seen == (std::set<int>{1, 2})); vf::count("schedules", r.schedules);
	}
	if (vf::begin("critical section: every schedule is correct")) {
		bool ok = true; auto r = sched::explore(3, sched::REDUCED, 2, 100000, [] { shared_counter = 0;
			#pragma omp parallel for schedule(dynamic)
			for (int i = 0; i < 4; ++i) {
				#pragma omp critical
				shared_counter += i + 1;
			} }, [&] { ok = ok && shared_counter == 10; });
		CHECKF("explorer_critical", r.error.empty() && ok && r.schedules > 100, "%s %llu schedules", r.error.c_str(), (unsigned long long) r.schedules); vf::count("schedules", r.schedules);
	}
	if (vf::begin("reduction and barriers")) {
		bool ok = true; int sum = 0; auto r = sched::explore(3, sched::REDUCED, 1, 100000, [&] { sum = 0; static int part[3];
			#pragma omp parallel reduction(+:sum)
			{
				#pragma omp for schedule(static)
				for (int i = 0; i < 3; ++i) part[i] = i + 1;
				#pragma omp for schedule(guided)
				for (int i = 0; i < 3; ++i) sum += part[2 - i];
			} }, [&] { ok = ok && sum == 6; });
		CHECKF("explorer_barrier", r.error.empty() && ok, "%s %llu schedules", r.error.c_str(), (unsigned long long) r.schedules); vf::count("schedules", r.schedules);
	}
	if (vf::begin("number of interleavings of two threads of three accesses")) {
		// 3 + 3 visible accesses: C(6,3) = 20 interleavings without bound
		static int a[2]; std::set<std::string> order; std::string cur;
		auto r = sched::explore(2, sched::ALL, 6, 100000, [&] { sched::threads({[] { volatile int* p = &a[0]; *p = 1; *p = 2; *p = 3; }, [] { volatile int* p = &a[1]; *p = 1; *p = 2; *p = 3; }}); }, [] {});
		vf::count("schedules", r.schedules); CHECKF("explorer_interleavings", r.error.empty() && r.schedules >= 20, "%s %llu schedules", r.error.c_str(), (unsigned long long) r.schedules);
	}
}

// ------------------------------------------------------------------------------------ T01
// a catalogue of calls on the thread's own data (and on shared constant objects)
struct Op { const char* name; std::function<real(int)> f; };
static const std::vector<Op>& catalogue();
static real sumv(const V& v) { real s = 0; for (real x : v) s += x; return s; }
template<class M> static real summ(const M& m) { real s = 0; for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) s += m(i, j) * (1 + i + 2 * j); return s; }
// shared by all threads, only read
static const V SX = {0, 1, 2, 4, 5}, SY = {1, 3, 2, 5, 4};
static const mat<real> SM = {{4, 1, 0}, {1, 5, 2}, {0, 2, 6}};
static const vec<real> SB = {1, 2, 3};
static const spline SS(SX, SY);
static const histogram SH(SY, 4);
static const polynomial<real> SP = {1, -2, 0.5, 1};
static const std::vector<Op>& catalogue() {
	static std::vector<Op> c;
	if (!c.empty()) return c;
	auto op = [&](const char* n, std::function<real(int)> f) { c.push_back({n, f}); };
	#define OP(name, expr) op(name, [](int k) -> real { const real x = 0.3 + 0.2 * k; (void) x; return expr; });
	#define OPB(name, ...) op(name, [](int k) -> real { const real x = 0.3 + 0.2 * k; (void) x; __VA_ARGS__ });
	OP("exp", theoretica::exp(x)) OP("ln", theoretica::ln(x)) OP("sin", theoretica::sin(x)) OP("tan", theoretica::tan(x)) OP("sqrt", theoretica::sqrt(x)) OP("cbrt", theoretica::cbrt(x))
	OP("root", theoretica::root(2 + x, 5)) OP("powf", theoretica::powf(x, 2.5)) OP("atan2", theoretica::atan2(x, 2.0)) OP("asin", theoretica::asin(x)) OP("sinh", theoretica::sinh(x)) OP("floor", theoretica::floor(10 * x))
	OP("sqrt of negative", theoretica::sqrt(-x)) OP("fact", (real) theoretica::fact<uint64_t>(5 + k)) OP("binomial", (real) theoretica::binomial_coeff(9, 2 + k)) OP("gamma", special::gamma(x + 1)) OP("beta", special::beta(x, 2))
	OP("mean", stats::mean(SX) + k) OP("variance", stats::variance(SY)) OP("correlation", stats::correlation_coefficient(SX, SY)) OP("pvalue", stats::pvalue_chi_squared(x, 4)) OP("kurtosis", stats::kurtosis(SY))
	OP("gaussian density", distribution::gaussian(x, 0, 1)) OP("binomial density", distribution::binomial(2, 7, 0.3)) OP("poisson density", distribution::poisson(3, x))
	OPB("regression", { regression::linear_model m(SX, SY); return m.A + m.B; })
	OPB("histogram", { histogram h(V{x, 1, 2, 3}, 3); h.insert(1.5); return h.number() + h.mean(); })
	OP("histogram reading", SH.bins()[1] + SH.mean())
	OP("inverse", summ(algebra::inverse(SM))) OP("det", algebra::det(SM)) OPB("solve", { auto r = algebra::solve(SM, SB); return r[0] + r[1]; })
	OPB("lu", { mat<real> L, U; algebra::decompose_lu(SM, L, U); return summ(L) + summ(U); }) OP("cholesky", summ(algebra::decompose_cholesky(SM)))
	OPB("eigen", { vec<real> v = {1, x, 1}; return algebra::eigenvalue_power(SM, v); })
	OPB("matrix product", { mat<real> m = SM * SM; m += SM; return summ(m) + summ(algebra::transpose(m)); })
	OPB("vector", { vec<real> v = SB * x; v += SB; return v * SB + v.norm(); })
	OPB("rotation", { auto m = algebra::rotation_3d<mat<real, 3, 3>>(x, vec<real, 3>{0, 0, 1}); return summ(m); })
	OPB("distance", { return algebra::euclidean_distance(SB, SB * x); })
	OPB("complex", { complex<> z(x, 2); z = z * z + exp(z); return z.Re() + sqrt(z).Im(); })
	OPB("quaternion", { quat<real> q(x, 1, 2, 3); q *= q; return q.a; })
	OPB("dual", { dual d(x, 1); d = exp(d) * sin(d); return d.Dual(); })
	OPB("dual2", { dual2 d(x, 1, 0); d = exp(d) * sin(d); return d.Dual2(); })
	OPB("gradient", { auto f = [](autodiff::dvec_t<2> v) { return v[0] * v[0] * v[1]; }; auto g = autodiff::gradient(f, vec<real, 2>{x, 2}); return g[0] + g[1]; })
	OPB("polynomial", { polynomial<real> p = SP * SP; p -= SP; return p(x) + p.find_order(); })
	OPB("legendre", { return legendre_polynomial(5)(x); }) OPB("laguerre", { return laguerre_polynomial(4)(x); }) OPB("hermite", { return hermite_polynomial(4)(x); }) OPB("chebyshev", { return chebyshev1_polynomial(4)(x); })
	OPB("roots", { auto r = legendre_roots(5); return r[0] + r[4]; })
	OP("spline reading", SS(2.3 + x)) OPB("spline", { spline s(SX, SY); return s(x) + s.deriv(x); })
	OPB("lagrange", { return lerp(SX[1], SX[2], x) + interpolate_chebyshev([](real t) { return t * t * t; }, 0, 1, 4)(x); })
	OPB("romberg", { return integral_romberg([](real t) { return t * t; }, 0, x); }) OPB("gauss", { return integral_legendre([](real t) { return t * t; }, 0, x, 8); }) OPB("simpson", { return integral_simpson([](real t) { return t; }, 0, x, 4); })
	OPB("laguerre integral", { return integral_inf_riemann([](real t) { return 1 / (1 + t * t * t * t); }, 0, 0.5, 1e-3, 200); })
	OPB("derivative", { return deriv_ridders2([](real t) { return t * t; }, x, 0.1); })
	OPB("ode", { auto s = ode::solve_rk4([](real t, vec<real> y) { return y; }, vec<real>{1}, 0, 1, 0.25); return s.x[s.x.size() - 1][0]; })
	OPB("bisection", { return root_bisect([](real t) { return t * t - 0.2; }, 0, 1); }) OPB("newton", { return root_newton<real_function>([](real t) { return t * t - 0.2; }, [](real t) { return 2 * t; }, 1); })
	OPB("golden section", { return minimize_goldensection([](real t) { return (t - 0.4) * (t - 0.4); }, 0, 1); })
	OPB("multi minimum", { auto r = multi_minimize_grad<2>([](autodiff::dvec_t<2> v) { return v[0] * v[0] + v[1] * v[1]; }, vec<real, 2>{0.1, x * 0.1}, -0.4, 1e-3, 20); return r[0] + r[1]; })
	OPB("xoshiro", { PRNG g = PRNG::xoshiro(1 + k); real s = 0; for (int i = 0; i < 4; ++i) s += rand_uniform(0, 1, g); return s; })
	OPB("samplers", { PRNG g = PRNG::wyrand(1 + k); return rand_exponential(2, g) + rand_cauchy(0, 1, g) + rand_laplace(0, 1, g) + rand_pareto(1, 2, g) + rand_rayleigh(1, g) + rand_diceroll(6, g); })
	OPB("shuffle", { PRNG g = PRNG::splitmix64(1 + k); V v = SX; shuffle(v, g, 4); return v[0] + 10 * v[1]; })
	OPB("monte carlo", { PRNG g = PRNG::middlesquare(5 + k); return integral_crude([](real t) { return t; }, 0, 1, g, 8); })
	OPB("quasi", { return integral_quasi_crude([](real t) { return t; }, 0, 1, 8) + qrand_weyl(3); })
	OPB("error", { return stats::mean(V{}) + theoretica::ln(-x); })
	OPB("parallel", { auto r = parallel::exp(SX); return sumv(r); })
	OPB("fft", { vec<complex<>> v; v.resize(4); for (int i = 0; i < 4; ++i) v[i] = complex<>(x + i, i); v = signal::fft(v); return v[1].Re() + v[2].Im(); })
	OPB("propagation", { auto f = [](autodiff::dvec_t<2> v) { return v[0] * v[1]; }; return stats::error_propagation<2>(f, vec<real, 2>{x, 2}, vec<real, 2>{0.1, 0.2}); })
	return c;
}
SECTION(t01_pairs) {
	const auto& c = catalogue();
	std::vector<real> want[3]; for (int k = 0; k < 3; ++k) for (auto& o : c) want[k].push_back(o.f(k));
	for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < c.size(); ++j) {
		if (!vf::begin("%s || %s", c[i].name, c[j].name)) continue;
		real a = 0, b = 0;
		auto r = sched::explore(2, sched::REDUCED, 1, 300, [&] { a = b = 12345; sched::threads({[&] { a = c[i].f(0); }, [&] { b = c[j].f(1); }}); }, [&] {
			CHECKF("first_value", same(a, want[0][i]), "%s gives %.17g instead of %.17g", c[i].name, a, want[0][i]);
			CHECKF("second_value", same(b, want[1][j]), "%s gives %.17g instead of %.17g", c[j].name, b, want[1][j]); vf::state(vf::mix(hv(a), hv(b)));
		});
		account(r);
	}
}
// nothing has been called before: the first execution in a fresh process initialises whatever is cached
SECTION(t01_cold) {
	const auto& c = catalogue();
	for (size_t i = 0; i < c.size(); ++i) for (size_t j = i; j < c.size(); ++j) {
		if (!vf::begin("%s || %s, first calls of the process", c[i].name, c[j].name)) continue;
		int fd[2]; if (pipe(fd)) abort();
		fflush(nullptr);
		pid_t p = fork();
		if (!p) {
			real a = 0, b = 0; std::string m; uint64_t rest[2];
			auto r = sched::explore(2, sched::REDUCED, 1, 20, [&] { sched::threads({[&] { a = c[i].f(0); }, [&] { b = c[j].f(1); }}); }, [] {});
			m = r.error;
			const real a1 = c[i].f(0), b1 = c[j].f(1);
			if (m.empty() && (!same(a, a1) || !same(b, b1))) m = "the values differ from those of later calls";
			rest[0] = r.schedules; rest[1] = r.points;
			if (write(fd[1], rest, sizeof rest) < 0 || write(fd[1], m.data(), m.size()) < 0) _exit(3);
			_exit(0);
		}
		close(fd[1]);
		uint64_t rest[2] = {0, 0}; std::string m; char buf[512]; ssize_t k;
		bool got = read(fd[0], rest, sizeof rest) == (ssize_t) sizeof rest;
		while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, k);
		close(fd[0]);
		int st = 0; waitpid(p, &st, 0);
		vf::count("schedules", rest[0]); vf::count("visible operations", rest[1]);
		CHECKF("cold", got && WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status %d", st);
		CHECKF("cold_race", m.empty(), "%s", m.c_str());
		vf::state(vf::mix(rest[1], i));
	}
}
SECTION(t01_three) {
	const auto& c = catalogue();
	for (size_t i = 0; i < c.size(); ++i) {
		if (!vf::begin("three threads calling %s", c[i].name)) continue;
		real w[3], g[3]; for (int k = 0; k < 3; ++k) w[k] = c[i].f(k);
		auto r = sched::explore(3, sched::REDUCED, 1, 300, [&] { sched::threads({[&] { g[0] = c[i].f(0); }, [&] { g[1] = c[i].f(1); }, [&] { g[2] = c[i].f(2); }}); }, [&] { for (int k = 0; k < 3; ++k) CHECKF("three_value", same(g[k], w[k]), "%s in thread %d gives %.17g instead of %.17g", c[i].name, k, g[k], w[k]); });
		account(r);
	}
}
// every access is a scheduling point: bounded exploration of the same function in two threads
static void all(size_t part) {
	const auto& c = catalogue();
	for (size_t i = part; i < c.size(); i += 6) {
		if (!vf::begin("two threads calling %s, all accesses", c[i].name)) continue;
		real w[2], g[2]; for (int k = 0; k < 2; ++k) w[k] = c[i].f(k);
		auto r = sched::explore(2, sched::ALL, vf::thorough() ? 2 : 1, vf::thorough() ? 100000 : 60000, [&] { sched::threads({[&] { g[0] = c[i].f(0); }, [&] { g[1] = c[i].f(1); }}); }, [&] { alive(); for (int k = 0; k < 2; ++k) CHECKF("value", same(g[k], w[k]), "%s in thread %d gives %.17g instead of %.17g", c[i].name, k, g[k], w[k]); });
		account(r);
	}
}
SECTION(t01_all_0) { all(0); }
SECTION(t01_all_1) { all(1); }
SECTION(t01_all_2) { all(2); }
SECTION(t01_all_3) { all(3); }
SECTION(t01_all_4) { all(4); }
SECTION(t01_all_5) { all(5); }
VF_MAIN
