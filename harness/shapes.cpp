// Every operation on every combination of shapes (empty ones included): no access outside of the data,
// no undefined arithmetic, and shapes without a meaning are reported.
#include "common.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
using namespace theoretica;
namespace al = theoretica::algebra;
typedef std::vector<real> V;
typedef vec<real> W;
typedef complex<real> Z;

static unsigned N() { return vf::thorough() ? 4 : 3; }
static W mkv(unsigned n, real s = 1) { W v; v.resize(n); for (unsigned i = 0; i < n; ++i) v[i] = s * (i + 1); return v; }
static V sv(unsigned n, real s = 1) { V v(n); for (unsigned i = 0; i < n; ++i) v[i] = s * (i + 1); return v; }
static vec<Z> zv(unsigned n) { vec<Z> v; v.resize(n); for (unsigned i = 0; i < n; ++i) v[i] = Z(i + 1, i); return v; }
static mat<real> mkm(unsigned r, unsigned c) { mat<real> m; m.resize(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = i == j ? 5 + i : 1 + 0.5 * j; return m; }
static mat<Z> zm(unsigned r, unsigned c) { mat<Z> m; m.resize(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = i == j ? Z(5, i) : Z(1, 0.5 * j); return m; }
static volatile real sink;
template<class T> static void use(const T&) {}
static bool plain;   // a result was used and none of its numbers was NaN
static void look(bool some, bool nan) { if (some && !nan) plain = true; }
static void use(real x) { sink = x; look(true, x != x); }
static void use(const W& v) { bool nan = false; for (unsigned i = 0; i < v.size(); ++i) { sink = v[i]; nan |= v[i] != v[i]; } look(v.size() > 0, nan); }
static void use(const V& v) { bool nan = false; for (unsigned i = 0; i < v.size(); ++i) { sink = v[i]; nan |= v[i] != v[i]; } look(v.size() > 0, nan); }
static void use(const mat<real>& m) { bool nan = false; for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) { sink = m(i, j); nan |= m(i, j) != m(i, j); } look(m.rows() && m.cols(), nan); }

// run one operation; need: the shapes must be refused with an error, ok: they must not
#define OP(name, bad, ...) if (vf::begin(name " with shapes %s", sh.c_str())) { errno = 0; plain = false; { __VA_ARGS__; } int e_ = errno; \
	++vf::S().checks; vf::state(vf::mix(vf::mix(__LINE__, e_), shn)); \
	if ((bad) > 0 && !e_) vf::fail(name "_unreported", "shapes %s were accepted", sh.c_str()); \
	if ((bad) > 0 && e_ && plain) vf::fail(name "_plausible", "shapes %s were refused but gave a plausible result", sh.c_str()); \
	if ((bad) == 0 && e_) vf::fail(name "_refused", "shapes %s were refused with errno %d", sh.c_str(), e_); }
static const int ANY = -1;   // neither required nor forbidden to report
static std::string fmt(const char* f, ...) { char b[100]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

SECTION(m01_vector) {
	for (unsigned n = 0; n <= 2 * N(); ++n) {
		std::string sh = fmt("%u", n); uint64_t shn = n; const W v = mkv(n); const V s = sv(n); const vec<Z> z = zv(n);
		const int E = n ? 0 : ANY;
		OP("norm", E, use(al::norm(v))) OP("sqr_norm", E, use(al::sqr_norm(v))) OP("vec.norm", E, use(v.norm())) OP("vec.sqr_norm", E, use(v.sqr_norm()))
		OP("norm of std::vector", E, use(al::norm(s))) OP("norm of complex", E, use(al::sqr_norm(z)))
		OP("normalize", E, use(al::normalize(v))) OP("normalized", E, use(v.normalized())) OP("make_normalized", E, W w = v; al::make_normalized(w))  OP("vec.normalize", E, W w = v; w.normalize())
		OP("lp_norm", E, use(al::lp_norm(v, 3))) OP("l1_norm", E, use(al::l1_norm(v))) OP("l2_norm", E, use(al::l2_norm(v))) OP("linf_norm", E, use(al::linf_norm(v)))
		OP("l1 of std::vector", E, use(al::l1_norm(s))) OP("linf of std::vector", E, use(al::linf_norm(s)))
		OP("negation", 0, use(-v)) OP("scaling", 0, use(v * 2.0)) OP("division", 0, use(v / 2.0)) OP("vec_scalmul", 0, W w = v; al::vec_scalmul(2.0, w)) OP("vec_zeroes", 0, W w = v; al::vec_zeroes(w)) OP("vec_error", 0, W w = v; al::vec_error(w))
		OP("copy", 0, W w = v; W u(w); W x = std::move(w); x = u; use(x)) OP("self assignment", 0, W w = v; w = *&w; use(w)) OP("equality", 0, sink = v == v)
		OP("iteration", 0, for (auto x : v) sink = x) OP("resize", 0, W w = v; w.resize(n + 2); w.resize(0); w.resize(n); use(w)) OP("push", 0, W w = v; w.push(3); use(w)) OP("to_string", 0, use(v.to_string()))
		OP("dot with itself", E, use(v * v)) OP("cross with itself", n == 3 ? 0 : 1, use(al::cross(v, v)))
		OP("sum", ANY, use(sum(s))) OP("product", ANY, use(product(s))) OP("mean", n ? 0 : 1, use(stats::mean(s))) OP("max", n ? 0 : 1, use(max(s))) OP("min", n ? 0 : 1, use(min(s)))
		OP("sum_compensated", ANY, use(sum_compensated(s))) OP("sum_pairwise", ANY, use(sum_pairwise(s))) OP("sum_squares", ANY, use(sum_squares(s)))
		OP("harmonic", n ? 0 : 1, use(harmonic_mean(s))) OP("geometric", n ? 0 : 1, use(geometric_mean(s))) OP("quadratic", n ? 0 : 1, use(quadratic_mean(s)))
		OP("variance", n > 1 ? 0 : n ? ANY : 1, use(stats::variance(s))) OP("stdev", n > 1 ? 0 : n ? ANY : 1, use(stats::stdev(s))) OP("stdom", ANY, use(stats::stdom(s))) OP("tss", ANY, use(stats::total_sum_squares(s)))
		OP("skewness", ANY, use(stats::skewness(s))) OP("kurtosis", ANY, use(stats::kurtosis(s))) OP("moments2", ANY, real a, b; stats::moments2(s, a, b)) OP("range", ANY, use(stats::range(s))) OP("semidispersion", ANY, use(stats::semidispersion(s)))
		OP("map", 0, use(map([](real x) { return 2 * x; }, s))) OP("apply", 0, V w = s; apply([](real x) { return -x; }, w))
		OP("parallel", 0, use(parallel::exp(s))) OP("histogram", ANY, histogram h(s); use(h.mean())) OP("histogram bins", ANY, histogram h(s, 3); sink = h.number())
		OP("shuffle", n ? 0 : 1, PRNG g = PRNG::splitmix64(3); V w = s; shuffle(w, g); use(w))
		OP("polynomial", 0, polynomial<real> p(s); use(p(2.0)); use(p.find_order()); p.trim(); use(p.to_string())) OP("polynomial derivative", ANY, polynomial<real> p(s); deriv(p); integral(p))
		OP("polynomial square", 0, polynomial<real> p(s); p *= p; p += p; p -= p; use(p(1.0))) OP("polynomial roots", ANY, polynomial<real> p(s); use(p.quadratic_roots()[0].Re()))
		OP("spline", n > 1 ? 0 : 1, spline S(s, s); use(S(1.5)); use(S.deriv(0.5))) OP("polynomial through points", ANY, std::vector<vec2> pts; for (unsigned i = 0; i < n; ++i) pts.push_back(vec2{(real) i, (real) (i * i)}); auto p = lagrange_polynomial(pts); use(p(0.5)))
		OP("regression", ANY, regression::linear_model m(s, s)) OP("fft", ANY, auto f = signal::fft(z); (void) f.size()) OP("ifft", ANY, auto f = signal::ifft(z); (void) f.size())
		OP("bit reversal", ANY, V w = s; swap_bit_reverse(w, 2))
	}
}
SECTION(m01_vectors) {
	for (unsigned n = 0; n <= 2 * N(); ++n) for (unsigned m = 0; m <= 2 * N(); ++m) {
		std::string sh = fmt("%u and %u", n, m); uint64_t shn = n * 100 + m; const W v = mkv(n), w = mkv(m, -1); const V s = sv(n), t = sv(m, 0.5); const vec<Z> z = zv(n), y = zv(m);
		const int D = n != m ? 1 : n ? 0 : ANY, D0 = n != m ? 1 : 0;
		OP("dot", D, use(al::dot(v, w))) OP("vec.dot", D, use(v.dot(w))) OP("inner product", D, use(v * w)) OP("complex dot", D, auto q = al::dot(z, y); (void) q) OP("std::vector dot", D, use(al::dot(s, t)))
		OP("cross", n == 3 && m == 3 ? 0 : 1, use(al::cross(v, w))) OP("vec.cross", n == 3 && m == 3 ? 0 : 1, use(v.cross(w)))
		OP("vec +", D0, use(v + w)) OP("vec -", D0, use(v - w)) OP("vec +=", n ? D0 : ANY, W x = v; x += w; use(x)) OP("vec -=", n ? D0 : ANY, W x = v; x -= w; use(x)) OP("vec_sum", D0, W x = v; al::vec_sum(x, w); use(x)) OP("vec_diff", D0, W x = v; al::vec_diff(x, w); use(x))
		OP("vec_copy", 0, W x = v; al::vec_copy(x, w); use(x)) OP("vec ==", 0, sink = v == w) OP("vec !=", 0, sink = v != w)
		OP("euclidean_distance", D, use(al::euclidean_distance(v, w))) OP("minkowski", D, use(al::minkowski_distance(v, w, 3))) OP("manhattan", D, use(al::manhattan_distance(v, w))) OP("chebyshev", D, use(al::chebyshev_distance(v, w)))
		OP("discrete", ANY, use(al::discrete_distance(v, w))) OP("canberra", D, use(al::canberra_distance(v, w))) OP("cosine", D, use(al::cosine_distance(v, w))) OP("hamming", ANY, use(al::hamming_distance(v, w)))
		OP("hermitian distance", D, auto q = al::hermitian_distance(z, y); (void) q)
		OP("product_sum", D, use(product_sum(s, t))) OP("product_sum_squares", D, use(product_sum_squares(s, t))) OP("quotient_sum", D, use(quotient_sum(s, t))) OP("weighted_mean", D, use(weighted_mean(s, t)))
		OP("covariance", n != m ? 1 : ANY, use(stats::covariance(s, t))) OP("correlation", n != m ? 1 : ANY, use(stats::correlation_coefficient(s, t))) OP("autocorrelation", ANY, use(stats::autocorrelation(s, m)))
		OP("absolute_error", ANY, use(stats::chi_square_linear(s, s, t, 0.1, 2)))
		OP("spline of two sets", n != m ? 1 : n > 1 ? 0 : 1, spline S(s, t); use(S(1.0)))
		OP("linear_model", n != m ? 1 : ANY, regression::linear_model M(s, t))
		OP("model with errors", ANY, regression::linear_model M(s, s, t)) OP("model with one error", n != m ? 1 : ANY, regression::linear_model M(s, t, 0.5))
		OP("weighted fit", n != m ? 1 : ANY, real a, b; regression::ols_linear(s, t, a, b))
		OP("map into", n != m ? ANY : 0, W x = w; map([](real a) { return a; }, v, x))
		OP("polynomials", 0, polynomial<real> p(s), q(t); p += q; p -= q; p = p * q; use(p(2.0))) OP("polynomial division", ANY, polynomial<real> p(s), q(t); p = p / q; use(p(1.0)))
		OP("polynomial equality", 0, polynomial<real> p(s), q(t); sink = p == q)
	}
}
SECTION(m01_matrix) {
	for (unsigned r = 0; r <= N() + 1; ++r) for (unsigned c = 0; c <= N() + 1; ++c) {
		std::string sh = fmt("%ux%u", r, c); uint64_t shn = r * 10 + c; const mat<real> A = mkm(r, c); const mat<Z> B = zm(r, c);
		const bool e = !r || !c; const int Q = r != c ? 1 : e ? ANY : 0;
		OP("trace", e ? ANY : 0, use(al::trace(A))) OP("diagonal_product", e ? ANY : 0, use(al::diagonal_product(A)))
		OP("det", Q, use(al::det(A))) OP("complex det", Q, auto d = al::det(B); (void) d)
		OP("transpose", 0, use(al::transpose(A))) OP("hermitian", 0, auto h = al::hermitian(B); (void) h) OP("make_transposed", r != c ? 1 : 0, mat<real> X = A; al::make_transposed(X); use(X)) OP("make_hermitian", r != c ? 1 : 0, mat<Z> X = B; al::make_hermitian(X)) OP("mat.transpose", ANY, mat<real> X = A; X.transpose(); use(X))
		OP("inverse", Q, use(al::inverse(A))) OP("invert", Q, mat<real> X = A; al::invert(X); use(X)) OP("mat.invert", Q, mat<real> X = A; X.invert(); use(X))
		OP("lu", e ? ANY : Q, mat<real> L, U; al::decompose_lu(A, L, U); use(L); use(U)) OP("lu inplace", e ? ANY : Q, mat<real> X = A; al::decompose_lu_inplace(X); use(X)) OP("cholesky", ANY, use(al::decompose_cholesky(A))) OP("cholesky inplace", ANY, mat<real> X = A; al::decompose_cholesky_inplace(X); use(X))
		OP("scaling of matrix", 0, use(A * 3.0); use(A / 2.0)) OP("mat_scalmul", 0, mat<real> X = A; al::mat_scalmul(2.0, X)) OP("zeroes", 0, mat<real> X = A; al::mat_zeroes(X)) OP("identity", ANY, mat<real> X = A; al::make_identity(X)) OP("error matrix", 0, mat<real> X = A; al::mat_error(X)) OP("shift", 0, mat<real> X = A; al::mat_shift_diagonal(X, 2.0))
		OP("predicates", 0, sink = al::is_square(A) + al::is_diagonal(A) + al::is_symmetric(A) + al::is_lower_triangular(A) + al::is_upper_triangular(A)) OP("density", e ? ANY : 0, use(al::density(A)); use(al::sparsity(A)))
		OP("copies", 0, mat<real> X = A; mat<real> Y(X); mat<real> K = std::move(X); K = Y; use(K)) OP("text", 0, use(A.to_string())) OP("iterations", 0, mat<real> X = A; for (auto& x : X) x = 1; use(X)) OP("matrix equality", 0, sink = A == A)
		for (unsigned i = 0; i <= N() + 1; ++i) for (unsigned j = 0; j <= N() + 1; ++j) {
			const std::string sh0 = sh; sh = sh0 + fmt(" and %u, %u", i, j); shn = shn * 100 + i * 10 + j;
			OP("swap_rows", i < r && j < r ? 0 : 1, mat<real> X = A; al::mat_swap_rows(X, i, j); use(X)) OP("swap_cols", i < c && j < c ? 0 : 1, mat<real> X = A; al::mat_swap_cols(X, i, j); use(X))
			OP("matrix resize", 0, mat<real> X = A; X.resize(i, j); use(X); X.resize(r, c); use(X))
			sh = sh0;
		}
		for (unsigned n = 0; n <= N() + 1; ++n) {
			const std::string sh0 = sh; sh = sh0 + fmt(" and %u", n); shn = shn * 100 + n; const W v = mkv(n); const V s = sv(n);
			const int T = n != c ? 1 : 0, T2 = r != c || n != r ? 1 : r ? 0 : ANY;
			OP("transform", ANY, use(al::transform(A, v))) OP("A * v", ANY, use(A * v)) OP("transform into", ANY, W x = mkv(r); al::transform(x, A, v); use(x)) OP("transform into any", ANY, W x; al::transform(x, A, v); use(x)) OP("apply_transform", e ? ANY : T, W x = v; al::apply_transform(A, x); use(x))
			OP("solve", T2, use(al::solve(A, v))) OP("solve_lu", T2, use(al::solve_lu(A, v))) OP("solve_lu inplace", T2, W x = v; al::solve_lu_inplace(A, x); use(x)) OP("solve L U", T2, use(al::solve_lu(A, A, v))) OP("solve_cholesky", T2, use(al::solve_cholesky(A, v)))
			OP("solve lower", T2, use(al::solve_triangular_lower(A, v))) OP("solve upper", T2, use(al::solve_triangular_upper(A, v))) OP("solve triangular", ANY, use(al::solve_triangular(A, v)))
			OP("rayleigh", T2, use(al::rayleigh_quotient(A, v))) OP("power", ANY, use(al::eigenvalue_power(A, v))) OP("power pair", ANY, W x = v; W q = v; use(al::eigenpair_power(A, x, q))) OP("inverse iteration", ANY, W x = v; use(al::eigenvalue_inverse(A, x))) OP("inverse vector", ANY, W x = v; use(al::eigenvector_inverse(A, 0.3, x))) OP("rayleigh iteration", ANY, W x = v; use(al::eigenvalue_rayleigh(A, 0.3, x)))
			OP("rayleigh pair", ANY, W x = v; W q = v; use(al::eigenpair_rayleigh(A, 0.3, x, q))) OP("inverse pair", ANY, W x = v; W q = v; use(al::eigenpair_inverse(A, x, q)))
			(void) T; sh = sh0;
		}
	}
}
SECTION(m01_matrices) {
	const unsigned K = N();
	for (unsigned r = 0; r <= K; ++r) for (unsigned c = 0; c <= K; ++c) for (unsigned p = 0; p <= K; ++p) for (unsigned q = 0; q <= K; ++q) {
		std::string sh = fmt("%ux%u and %ux%u", r, c, p, q); uint64_t shn = ((r * 10 + c) * 10 + p) * 10 + q; const mat<real> A = mkm(r, c), B = mkm(p, q);
		const int S = r == p && c == q ? 0 : 1, M = c == p ? 0 : 1;
		OP("A + B", S, use(A + B)) OP("A - B", S, use(A - B)) OP("A += B", S, mat<real> X = A; X += B; use(X)) OP("A -= B", S, mat<real> X = A; X -= B; use(X)) OP("A * B", M, use(A * B)) OP("A *= B", ANY, mat<real> X = A; X *= B; use(X)) OP("A == B", 0, sink = A == B) OP("A != B", 0, sink = A != B)
		OP("mat_sum", S, mat<real> X = A; al::mat_sum(X, B); use(X)) OP("mat_diff", S, mat<real> X = A; al::mat_diff(X, B); use(X)) OP("mat_lincomb", S, mat<real> X = A; al::mat_lincomb(2.0, X, 3.0, B); use(X)) OP("mat_mul", M, use(al::mat_mul(A, B))) OP("mat_transpose_mul", r == p ? 0 : 1, use(al::mat_transpose_mul(A, B))) OP("mat_mul_transpose", c == q ? 0 : 1, use(al::mat_mul_transpose(A, B)))
		OP("mat_copy", 0, mat<real> X = B; al::mat_copy(X, A); use(X)) OP("transpose into", r == q && c == p ? 0 : 1, mat<real> X = B; al::transpose(X, A); use(X)) OP("hermitian into", r == q && c == p ? 0 : 1, mat<real> X = B; al::hermitian(X, A); use(X))
		OP("mat_equals", 0, sink = al::mat_equals(A, B)) OP("inverse into", ANY, mat<real> X = B; al::inverse(X, A); use(X)) OP("mat_scalmul into", S, mat<real> X = B; al::mat_scalmul(X, 2.0, A); use(X)) OP("assignment", 0, mat<real> X = B; X = A; use(X))
		OP("solve L U of two shapes", ANY, use(al::solve_lu(A, B, mkv(r)))) OP("lu into", ANY, mat<real> L = B, U = B; al::decompose_lu(A, L, U); use(L); use(U))
		for (unsigned d = 0; d < 4; ++d) {
			const std::string sh0 = sh; sh = sh0 + fmt(" into %ux%u", d & 1 ? r : q, d & 2 ? q : c); mat<real> R = mkm(d & 1 ? r : q, d & 2 ? q : c);
			const bool like = R.rows() == r && R.cols() == c;
			OP("mat_sum into", !S && like ? 0 : 1, mat<real> X = R; al::mat_sum(X, A, B); use(X)) OP("mat_diff into", !S && like ? 0 : 1, mat<real> X = R; al::mat_diff(X, A, B); use(X)) OP("mat_lincomb into", !S && like ? 0 : 1, mat<real> X = R; al::mat_lincomb(X, 2.0, A, 3.0, B); use(X))
			OP("mat_mul into", !M && R.rows() == r && R.cols() == q ? 0 : 1, mat<real> X = R; al::mat_mul(X, A, B); use(X))
			sh = sh0;
		}
	}
}
// dynamic automatic differentiation, differential equations and fields in every dimension
SECTION(m01_fields) {
	typedef multidual<0> MD;
	for (unsigned n = 0; n <= N() + 1; ++n) {
		std::string sh = fmt("dimension %u", n); uint64_t shn = n; const W x = mkv(n, 0.5);
		OP("gradient", n ? 0 : ANY, use(autodiff::gradient([](vec<MD> y) { if (!y.size()) return MD(0.0, vec<real>()); MD s = y[0] * 0.0; for (unsigned i = 0; i < y.size(); ++i) s += y[i] * y[i]; return s; }, x)))
		OP("make_argument", 0, auto y = MD::make_argument(x); use(MD::extract_real(y)))
		OP("jacobian", n ? 0 : ANY, use(autodiff::jacobian<0, 0>([](vec<MD> y) { return y; }, x)))
		OP("curl", n == 3 ? 0 : n ? 1 : ANY, use(autodiff::curl<0>([](vec<MD> y) { return y; }, x)))
		OP("extract", 0, vec<MD> y = MD::make_argument(x); vec<real> v; v.resize(n); mat<real> J; J.resize(n, n); MD::extract(y, v, J); use(v); use(J))
		OP("ode", 0, auto s = ode::solve_rk4([](real t, const W& v) { return v * -1.0; }, x, 0.0, 0.5, 0.1); for (unsigned i = 0; i < s.x.size(); ++i) use(s.x[i]))
		OP("ode adams", 0, use(ode::step_adams3([](real t, const W& v) { return v * -1.0; }, x, 0.0, x, 0.1, x, 0.2, 0.1)))
		for (unsigned m = 0; m <= N() + 1; ++m) {
			const std::string sh0 = sh; sh = sh0 + fmt(" and %u", m); shn = n * 10 + m; MD a(2.0, mkv(n)), b(3.0, mkv(m, -1));
			const int D = n == m ? 0 : n && m ? 1 : ANY;
			OP("multidual +", D, MD c = a + b; use(c.Dual())) OP("multidual -", D, MD c = a - b; use(c.Dual())) OP("multidual *", D, MD c = a * b; use(c.Dual())) OP("multidual /", D, MD c = a / b; use(c.Dual()))
			OP("multidual +=", D, MD c = a; c += b; use(c.Dual())) OP("multidual -=", D, MD c = a; c -= b; use(c.Dual())) OP("multidual *=", D, MD c = a; c *= b; use(c.Dual())) OP("multidual /=", D, MD c = a; c /= b; use(c.Dual()))
			OP("directional", n == m ? (n ? 0 : ANY) : ANY, use(autodiff::directional_derivative<0>([](vec<MD> y) { return y.size() ? y[0] : MD(0.0, vec<real>()); }, x, mkv(m))))
			OP("quaternion of a vector", n == 3 ? 0 : 1, quat<real> q(1, 2, 3, 4); use(q.transform(x)))
			OP("covar_mat", ANY, std::vector<V> d(n, sv(m)); use(stats::covar_mat(d)))
			OP("covar_mat of different sizes", ANY, std::vector<V> d; for (unsigned i = 0; i < n; ++i) d.push_back(sv(i + m)); use(stats::covar_mat(d)))
			sh = sh0;
		}
	}
}
VF_MAIN
