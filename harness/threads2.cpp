// Independence of calls: every public function of the library, called at the same time from two
// threads (controlled scheduler, vector-clock race detection), cold and warm, and after other calls.
#include <atomic>
#include <cmath>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
#include "utility.h"
#include "explore.h"
using namespace theoretica;
typedef std::vector<real> V;
static bool same(real a, real b) { return vf::near_(a, b, 1e-12, 1e-300); }
static void account(const sched::Result& r) {
	vf::count("schedules", r.schedules); vf::count("visible operations", r.points); vf::count("scheduling choices", r.choices); vf::count("synchronisation operations", r.syncs);
	if (!r.complete) vf::count("explorations stopped at the cap");
	CHECKF("race", r.error.empty(), "%s", r.error.c_str());
}
// ---- arguments: eight regimes
static const int K = 8;
static const real XS[K] = {0.3, 0.75, -0.4, 2.5, 12, 1e-7, -7, 150};
static const V DX[4] = {{0, 1, 2, 4, 5}, {1, 3, 2, 5, 4}, {2.5, -1, 0.5, 8}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}};
static const V DY[4] = {{1, 3, 2, 5, 4}, {0.5, 1, 2, 2.5, 4}, {1, 4, 2, 3}, {3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4}};
static const mat<real> DM[4] = {{{4, 1, 0}, {1, 5, 2}, {0, 2, 6}}, {{2, 1}, {1, 3}}, {{9, 1, 0, 1}, {1, 8, 1, 0}, {0, 1, 7, 1}, {1, 0, 1, 6}}, {{3}}};
static const vec<real> DB[4] = {{1, 2, 3}, {1, -1}, {1, 0, 2, -1}, {5}};
static std::string acc(real v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static real digest(real v) { return v; }
static real digest(int v) { return v; }
static real digest(unsigned v) { return v; }
static real digest(uint64_t v) { return (real) (v % 1000003); }
static real digest(const std::string& s) { real h = 0; for (unsigned char ch : s) h = std::fmod(h * 31 + ch, 1000003.0); return h; }
template<class T> static real digest(const complex<T>& z) { return digest(z.Re()) + 3 * digest(z.Im()); }
template<class T> static real digest(const phasor<T>& z) { return z.modulus + 3 * z.phase; }
static real digest(const dual& z) { return z.Re() + 3 * z.Dual(); }
static real digest(const dual2& z) { return z.Re() + 3 * z.Dual1() + 7 * z.Dual2(); }
template<class T> static real digest(const quat<T>& q) { return q.a + 3 * q.b + 5 * q.c + 7 * q.d; }
template<unsigned N> static real digest(const multidual<N>& z) { real s = z.Re(); for (unsigned i = 0; i < z.Dual().size(); ++i) s += (i + 2) * z.Dual()[i]; return s; }
template<class T, unsigned N> static real digest(const vec<T, N>& v) { real s = 0; for (unsigned i = 0; i < v.size(); ++i) s += (i + 1) * digest(v[i]); return s; }
template<class T> static real digest(const std::vector<T>& v) { real s = 0; for (size_t i = 0; i < v.size(); ++i) s += (i + 1) * digest(v[i]); return s; }
template<class T, unsigned N, unsigned M> static real digest(const mat<T, N, M>& m) { real s = 0; for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) s += digest(m(i, j)) * (1 + i + 2 * j); return s; }
static real digest(const polynomial<real>& p) { return digest(p.coeff); }
template<class W> static real digest(const ode::ode_solution_t<W>& s) { return digest(s.t) + digest(s.x); }

struct Op { const char* name; std::function<real(int)> f; };
static std::vector<Op>& list() { static std::vector<Op> v; return v; }
static void op(const char* n, std::function<real(int)> f) { list().push_back({n, f}); }
#define OP(name, ...) op(name, [](int k) -> real { const real x = XS[k]; const unsigned n = k + 1; const V& X = DX[k % 4]; const V& Y = DY[k % 4]; const mat<real>& A = DM[k % 4]; const vec<real>& B = DB[k % 4]; (void) x; (void) n; (void) X; (void) Y; (void) A; (void) B; __VA_ARGS__ });
#define E(name, ...) OP(name, return digest(__VA_ARGS__);)
#define F1(f) E(#f, theoretica::f(x))
#define FC(f) E("complex " #f, theoretica::f(complex<real>(x, 0.5)))
#define FD(f) E("dual " #f, theoretica::f(dual(x, 1)))
#define FD2(f) E("dual2 " #f, theoretica::f(dual2(x, 1, 0)))
#define FM(f) E("multidual " #f, theoretica::f(multidual<2>(x, vec<real, 2>{1, 2})))
#define FP(f) E("parallel " #f, parallel::f(X))
static real cubic(real t) { return t * t * t - 0.5 * t + 0.1; }
static real dcubic(real t) { return 3 * t * t - 0.5; }
static real d2cubic(real t) { return 6 * t; }
template<class T> static T gcubic(T t) { return t * t * t - t * 0.5 + 0.1; }
static real bowl(real t) { return (t - 0.4) * (t - 0.4) + 1; }
static real dbowl(real t) { return 2 * (t - 0.4); }
static real d2bowl(real) { return 2; }
static real nbowl(real t) { return -bowl(t); }
static real dnbowl(real t) { return -dbowl(t); }
static real d2nbowl(real) { return -2; }
static multidual<2> mf(vec<multidual<2>, 2> v) { return v[0] * v[0] * v[1] + sin(v[1]); }
static multidual<3> mf3(vec<multidual<3>, 3> v) { return v[0] * v[1] * v[2]; }
static vec<multidual<2>, 2> vf2(vec<multidual<2>, 2> v) { return {v[0] * v[1], v[0] - v[1] * v[1]}; }
static vec<multidual<3>, 3> vf3(vec<multidual<3>, 3> v) { return {v[0] * v[1], v[2] * v[1], v[0] * v[0]}; }
static dual2 lf(vec<dual2, 2> v) { return v[0] * v[0] * v[1] + v[1] * v[1]; }
static vec<real> field(real t, vec<real> y) { return vec<real>{y[1], -y[0] + 0.1 * t}; }
static real pdf(real t, const vec<real>& th) { return t < 0 || t > 1 ? 0 : th[0] * t; }
static real fsum(vec<real, 2> v) { return v[0] + 2 * v[1]; }
static real prod2(real a, real b) { return a * b; }
static multidual<2> bowl2(vec<multidual<2>, 2> v) { return v[0] * v[0] + v[1] * v[1] * 2; }
static multidual<2> hill2(vec<multidual<2>, 2> v) { return multidual<2>(1) - v[0] * v[0] - v[1] * v[1] * 2; }
static void core() {
	F1(identity) F1(square) F1(cube) F1(sqrt) F1(cbrt) F1(abs) F1(sgn) F1(floor) F1(fract) F1(log2) F1(log10) F1(ln) F1(exp) F1(expm1) F1(sin) F1(cos) F1(tan) F1(cot) F1(atan) F1(asin) F1(acos) F1(sinh) F1(cosh) F1(tanh) F1(coth)
	F1(asinh) F1(acosh) F1(atanh) F1(sigmoid) F1(sinc) F1(heaviside) F1(radians) F1(degrees)
	E("isqrt", isqrt<uint64_t>(1000003ull * n * n)) E("icbrt", icbrt<uint64_t>(1000003ull * n)) E("ilog2", ilog2<uint64_t>(77 * n)) E("pad2", pad2<uint64_t>(77 * n)) E("pow", theoretica::pow(x, (int) n - 4)) E("ipow", ipow(x, n))
	E("fact", fact<uint64_t>(n + 5)) E("falling_fact", falling_fact(x, n)) E("rising_fact", rising_fact(x, n)) E("double_fact", double_fact<uint64_t>(n + 4)) E("powf", theoretica::powf(theoretica::abs(x), 1.5)) E("root", theoretica::root(x, 3 + k % 4)) E("atan2", theoretica::atan2(x, 2 - n))
	E("binomial_coeff", binomial_coeff<uint64_t>(12, n)) E("catalan", catalan<uint64_t>(n)) E("kronecker_delta", kronecker_delta<int>(n, 3)) E("max", theoretica::max(x, 1.0)) E("min", theoretica::min(x, 1.0)) E("clamp", theoretica::clamp(x, -1.0, 1.0))
	E("gamma", special::gamma(x)) E("gamma of integers", special::gamma(n)) E("half_gamma", special::half_gamma(n)) E("lngamma", special::lngamma(x)) E("pi", special::pi(x)) E("beta", special::beta(theoretica::abs(x), 2))
	OP("mul_uint128", uint64_t lo, hi; mul_uint128(0x123456789abcdefull * n, 0xfedcba987654321ull, lo, hi); return digest(lo) + digest(hi) + digest(mix_mum(77 * n, 99));)
	OP("swap_bit_reverse", V v(8); for (int i = 0; i < 8; ++i) v[i] = i * x; swap_bit_reverse(v, 3); return digest(v);)
	E("product", theoretica::product(X)) E("product_sum", theoretica::product_sum(X, Y)) E("product_sum of three", theoretica::product_sum(X, Y, X)) E("product_sum_squares", theoretica::product_sum_squares(X, Y)) E("quotient_sum", theoretica::quotient_sum(X, Y))
	E("sum_squares", theoretica::sum_squares(X)) E("sum_compensated", theoretica::sum_compensated(X)) E("sum_pairwise", theoretica::sum_pairwise(X)) E("sum", theoretica::sum(X)) OP("sum of many", V v(300); for (int i = 0; i < 300; ++i) v[i] = i * x; return theoretica::sum(v) + theoretica::sum_pairwise(v);)
	OP("apply", V v = X; theoretica::apply([](real t) { return 2 * t; }, v); return digest(v);) E("map", theoretica::map([](real t) { return 2 * t; }, X)) OP("concatenate", return digest(theoretica::concatenate<V, V, V>(X, Y));) E("dataset max", theoretica::max(X)) E("dataset min", theoretica::min(X))
	E("arithmetic_mean", arithmetic_mean(X)) E("harmonic_mean", harmonic_mean(Y)) E("geometric_mean", geometric_mean(Y)) E("weighted_mean", weighted_mean(X, Y)) E("quadratic_mean", quadratic_mean(X))
	OP("errors", return theoretica::sqrt(-n) + theoretica::ln(-x * x) + stats::mean(V{}) + special::gamma(-(real) n) + theoretica::asin(2 + x * x);)
	OP("ratio", ratio<real> r(x, 2), s(1, n); return (r + s).eval() + (r * s).eval() + (r - s).eval() + (r / s).eval();)
	OP("printing", std::ostringstream o; fprint(o, x, n); fprintln(o, x); return digest(o.str());) OP("reading", std::istringstream s("1.5\n2\n\n" + acc(x) + "\nend\n9"); return digest(readln<real>(s, "end", [](const std::string& t) { return std::stod(t); }));)
	FP(square) FP(cube) FP(abs) FP(sqrt) FP(cbrt) FP(exp) FP(ln) FP(log2) FP(log10) FP(sin) FP(cos) FP(tan) FP(cot) FP(asin) FP(acos) FP(atan) FP(sinh) FP(cosh) FP(tanh) FP(coth) E("parallel pow", parallel::pow(X, (int) n)) E("parallel powf", parallel::powf(Y, 1.5)) E("parallel apply_function", parallel::apply_function([](real t) { return -t; }, X))
}
static void algebra_ops() {
	E("transpose", algebra::transpose(A)) E("hermitian", algebra::hermitian(A)) E("det", algebra::det(A)) E("trace", algebra::trace(A)) E("diagonal_product", algebra::diagonal_product(A)) E("inverse", algebra::inverse(A)) OP("invert", mat<real> m = A; algebra::invert(m); return digest(m);)
	OP("inverse of a static matrix", mat<real, 2, 2> m; m(0, 0) = 2 + x * x; m(0, 1) = m(1, 0) = 1; m(1, 1) = 3; return digest(algebra::inverse(m)) + algebra::det(m);) OP("inverse of a singular matrix", mat<real> m = {{1, 2}, {2, 4}}; return digest(algebra::inverse(m));)
	E("is_square", (int) algebra::is_square(A)) E("is_diagonal", (int) algebra::is_diagonal(A)) E("is_symmetric", (int) algebra::is_symmetric(A)) E("is_lower_triangular", (int) algebra::is_lower_triangular(A)) E("is_upper_triangular", (int) algebra::is_upper_triangular(A)) E("density", algebra::density(A)) E("sparsity", algebra::sparsity(A))
	OP("decompose_lu", mat<real> L, U; algebra::decompose_lu(A, L, U); return digest(L) + digest(U);) OP("decompose_lu_inplace", mat<real> m = A; algebra::decompose_lu_inplace(m); return digest(m);) E("decompose_cholesky", algebra::decompose_cholesky(A)) OP("decompose_cholesky_inplace", mat<real> m = A; algebra::decompose_cholesky_inplace(m); return digest(m);)
	E("solve", algebra::solve(A, B)) OP("solve_lu", mat<real> m = A; return digest(algebra::solve_lu(m, B));) OP("solve_cholesky", return digest(algebra::solve_cholesky(algebra::decompose_cholesky(A), B));) OP("solve_triangular", auto L = algebra::decompose_cholesky(A); return digest(algebra::solve_triangular_lower(L, B)) + digest(algebra::solve_triangular_upper(algebra::transpose(L), B)) + digest(algebra::solve_triangular(L, B));)
	OP("eigenvalue_power", vec<real> v = B; return algebra::eigenvalue_power(A, v);) OP("eigenpair_power", vec<real> v = B, w = B; return algebra::eigenpair_power(A, v, w) + digest(w);) OP("eigenvalue_inverse", return algebra::eigenvalue_inverse(A, B);) OP("eigenvector_inverse", return digest(algebra::eigenvector_inverse(A, 0.5, B));) OP("eigenpair_inverse", vec<real> w = B; return algebra::eigenpair_inverse(A, B, w) + digest(w);)
	OP("eigenvalue_rayleigh", return algebra::eigenvalue_rayleigh(A, 0.51, B);) OP("eigenpair_rayleigh", vec<real> w = B; return algebra::eigenpair_rayleigh(A, 0.51, B, w) + digest(w);) E("rayleigh_quotient", algebra::rayleigh_quotient(A, B))
	E("matrix product", A * A) E("matrix sum", A + A) E("matrix difference", A - 2.0 * A) E("matrix quotient", A / 2.0) E("transform", A * B) OP("compound matrix operators", mat<real> m = A; m += A; m *= 3.0; m -= A; m /= 2.0; m *= A; return digest(m);) OP("mat_mul_transpose", return digest(algebra::mat_mul_transpose(A, A)) + digest(algebra::mat_transpose_mul(A, A));) OP("mat_lincomb", mat<real> m = A; algebra::mat_lincomb(x, m, 2.0, A); return digest(m);)
	OP("matrix text", return digest(A.to_string());) OP("matrix rows and columns", mat<real> m = A; algebra::mat_swap_rows(m, 0, m.rows() - 1); algebra::mat_swap_cols(m, 0, m.cols() - 1); algebra::mat_shift_diagonal(m, x); return digest(m);) OP("matrix resize", mat<real> m = A; m.resize(n, n); return digest(m);)
	E("dot", B * B) E("vec sum", B + B * x) E("vec norm", B.norm() + B.sqr_norm()) E("normalized", B.normalized()) E("cross", algebra::cross(vec<real, 3>{x, 1, 2}, vec<real, 3>{0, 1, x})) E("vec text", B.to_string()) E("euclidean_base", vec<real, 3>::euclidean_base(k % 3)) OP("compound vector operators", vec<real> v = B; v += B; v *= x; v -= B; v /= 2; v.push(x); v.resize(n); return digest(v);)
	E("lp_norm", algebra::lp_norm(B, 3)) E("l1_norm", algebra::l1_norm(B)) E("l2_norm", algebra::l2_norm(B)) E("linf_norm", algebra::linf_norm(B)) E("euclidean_distance", algebra::euclidean_distance(B, B * x)) E("minkowski_distance", algebra::minkowski_distance(B, B * x, 3)) E("manhattan_distance", algebra::manhattan_distance(B, B * x)) E("chebyshev_distance", algebra::chebyshev_distance(B, B * x))
	E("discrete_distance", algebra::discrete_distance(B, B * x)) E("canberra_distance", algebra::canberra_distance(B, B * x)) E("cosine_distance", algebra::cosine_distance(B, B + B * x)) E("hamming_distance", algebra::hamming_distance(B, B * x)) E("hermitian_distance", algebra::hermitian_distance(vec<complex<>, 2>{{x, 1}, {0, 1}}, vec<complex<>, 2>{{1, x}, {2, 1}}))
	typedef mat<real, 2, 2> M2; typedef mat<real, 3, 3> M3; typedef mat<real, 4, 4> M4; typedef vec<real, 3> V3;
	E("identity matrix", algebra::identity<mat<real>>(n, n)) E("diagonal", algebra::diagonal<mat<real>>(B, B.size(), B.size())) E("translation", algebra::translation<mat<real>>(B)) E("rotation_2d", algebra::rotation_2d<M2>(x)) E("rotation_3d", algebra::rotation_3d<M3>(x, V3{1, 2, 2})) E("rotation_3d_xaxis", algebra::rotation_3d_xaxis<M3>(x)) E("rotation_3d_yaxis", algebra::rotation_3d_yaxis<M3>(x)) E("rotation_3d_zaxis", algebra::rotation_3d_zaxis<M3>(x))
	E("perspective", algebra::perspective<M4>(-n, n, -1, 1, 1, 10)) E("perspective_fov", algebra::perspective_fov<M4>(0.3 * n, 1.5, 1, 10)) E("ortho", algebra::ortho<M4>(-n, n, -1, 1, 1, 10)) E("look_at", algebra::look_at<M4>(V3{x, 1, 2}, V3{0, 0, 1}, V3{0, 1, 0})) E("symplectic", algebra::symplectic<mat<real>>(2 * n, 2 * n)) E("hilbert", algebra::hilbert<mat<real>>(n)) E("sphere_inversion", algebra::sphere_inversion(V3{x, 1, 2}, V3{0, 0, 1}, 2.0))
	E("rank-free Gram matrix", A * algebra::transpose(A))
}
static void number_ops() {
	FC(identity) FC(conjugate) FC(inverse) FC(square) FC(cube) FC(exp) FC(abs) FC(sin) FC(cos) FC(tan) FC(sqrt) FC(ln) FC(asin) FC(acos) FC(atan) E("complex argument", complex<>(x, 1).arg() + complex<>(x, 1).norm()) E("complex arithmetic", complex<>(x, 1) * complex<>(2, x) / complex<>(1, 3) - complex<>(x, x)) E("complex text", complex<>(x, 1).to_string()) E("rotor", complex<>::rotor(x))
	E("phasor", phasor<>(1 + x * x, 0.5) * phasor<>(2, x) + phasor<>(1, 0.25)) E("phasor of a complex", phasor<>(complex<>(x, 2))) E("phasor division", phasor<>(1 + x * x, 0.5) / phasor<>(2, x))
	typedef vec<real, 3> V3;
	E("quaternion product", quat<real>(x, 1, 2, 3) * quat<real>(1, x, 0, 2)) E("quaternion inverse", quat<real>(x, 1, 2, 3).inverse()) E("quaternion quotient", quat<real>(x, 1, 2, 3) / quat<real>(1, x, 0, 2)) E("quaternion rotation", quat<real>::rotate(V3{1, x, 2}, x, V3{0, 1, 1})) E("quaternion transform", quat<real>::rotation(x, V3{1, 1, 0}).transform(V3{1, 2, x})) E("quaternion text", quat<real>(x, 1, 2, 3).to_string())
	FD(square) FD(cube) FD(conjugate) FD(sqrt) FD(sin) FD(cos) FD(tan) FD(cot) FD(exp) FD(ln) FD(log2) FD(log10) FD(abs) FD(asin) FD(acos) FD(atan) FD(sinh) FD(cosh) FD(tanh) E("dual pow", theoretica::pow(dual(x, 1), (int) n)) E("dual arithmetic", dual(x, 1) * dual(2, x) / dual(3, 1) - dual(x, 2)) E("dual text", dual(x, 1).to_string()) E("dual matrix", dual(x, 1).to_mat())
	FD2(square) FD2(cube) FD2(conjugate) FD2(sqrt) FD2(sin) FD2(cos) FD2(tan) FD2(cot) FD2(exp) FD2(ln) FD2(log2) FD2(log10) FD2(abs) FD2(asin) FD2(acos) FD2(atan) E("dual2 pow", theoretica::pow(dual2(x, 1, 0), (int) n)) E("dual2 arithmetic", dual2(x, 1, 0) * dual2(2, x, 1) / dual2(3, 1, 0)) E("dual2 text", dual2(x, 1, 0).to_string())
	FM(square) FM(cube) FM(sqrt) FM(sin) FM(cos) FM(tan) FM(cot) FM(exp) FM(ln) FM(log2) FM(log10) FM(abs) FM(asin) FM(acos) FM(atan) FM(sinh) FM(cosh) FM(tanh) E("multidual pow", theoretica::pow(multidual<2>(x, vec<real, 2>{1, 2}), (int) n)) E("multidual arithmetic", multidual<2>(x, vec<real, 2>{1, 2}) * multidual<2>(2, vec<real, 2>{x, 0}) / multidual<2>(3, vec<real, 2>{1, 1})) E("multidual text", multidual<2>(x, vec<real, 2>{1, 2}).to_string())
	typedef vec<real, 2> V2;
	E("autodiff deriv", autodiff::deriv([](dual t) { return gcubic(t); }, x)) E("autodiff deriv2", autodiff::deriv2([](dual2 t) { return gcubic(t); }, x)) E("gradient", autodiff::gradient(mf, V2{x, 2})) E("divergence", autodiff::divergence(mf, V2{x, 2})) E("jacobian", autodiff::jacobian<2, 2>(vf2, V2{x, 2})) E("curl", autodiff::curl<3>(vf3, V3{x, 2, 1})) E("directional_derivative", autodiff::directional_derivative<3>(mf3, V3{x, 2, 1}, V3{1, 0, 2})) E("laplacian", autodiff::laplacian<2>(lf, V2{x, 2}))
	OP("operators of autodiff", auto g = autodiff::gradient(mf); auto j = autodiff::jacobian<2, 2>(vf2); auto l = autodiff::laplacian<2>(lf); return digest(g(V2{x, 2})) + digest(j(V2{x, 2})) + digest(l(V2{x, 2}));)
	E("expand_linear", taylor::expand_linear([](dual t) { return gcubic(t); }, x)) E("expand_quadratic", taylor::expand_quadratic([](dual2 t) { return gcubic(t); }, x))
}
static void poly_ops() {
	static const polynomial<real> P = {1, -2, 0.5, 1};
	E("polynomial value", P(x)) E("polynomial product", P * polynomial<real>{x, 1}) E("polynomial sum", P + polynomial<real>{x, 1}) E("polynomial difference", P - polynomial<real>{x, 1, 1, 1, 2}) E("polynomial quotient", P / polynomial<real>{x, 1}) OP("compound polynomial operators", polynomial<real> p = P; p += P; p -= polynomial<real>{x}; p *= P; p *= x; p /= polynomial<real>{1, 1}; return digest(p);)
	E("polynomial text", P.to_string()) E("from_roots", polynomial<real>::from_roots(X)) E("monomial", polynomial<real>::monomial(x, n)) E("quadratic_roots", polynomial<real>{x, 1, 2}.quadratic_roots()) E("find_order", (int) P.find_order()) E("polynomial derivative", deriv(P)) E("polynomial integral", integral(P)) E("definite integral", integral(P, 0, x)) E("derivative at a point", deriv(P, x))
	E("legendre", legendre_polynomial(n)) E("laguerre", laguerre_polynomial(n)) E("hermite", hermite_polynomial(n)) E("chebyshev1", chebyshev1_polynomial(n)) E("chebyshev2", chebyshev2_polynomial(n)) E("general_laguerre", general_laguerre_polynomial(x, n)) E("assoc_legendre", assoc_legendre_polynomial_even(n, 0)) E("assoc_legendre function", assoc_legendre_polynomial(n, 1)(0.4))
	E("legendre normalization", legendre_polyn_normalization(n) + hermite_polyn_normalization(n)) E("legendre_roots", legendre_roots(n)) E("legendre_weights", legendre_weights(legendre_roots(n))) E("laguerre_weights", laguerre_weights(V{0.585786437626905, 3.41421356237309})) E("hermite_weights", hermite_weights(V{-0.7071067811865475, 0.7071067811865475})) E("legendre recurrence", legendre_polyn_recurr(polynomial<real>{0, 1}, polynomial<real>{1}, n))
	typedef vec<real, 2> V2;
	E("lagrange_polynomial", lagrange_polynomial(std::vector<V2>{{0, x}, {1, 2}, {2, 1}})) E("chebyshev_nodes", chebyshev_nodes(0, 1 + x * x, n)) E("interpolate_grid", interpolate_grid(cubic, 0, 1 + x * x, n)) E("interpolate_chebyshev", interpolate_chebyshev(cubic, 0, 1 + x * x, n))
	E("lerp", lerp(1.0, 2.0, x) + invlerp(1.0, 3.0, x) + remap(x, 0.0, 1.0, 2.0, 5.0)) E("lerp of vectors", lerp(V2{1, 2}, V2{3, 1}, 0.1 * n)) E("nlerp", nlerp(V2{1, 2}, V2{3, 1}, 0.1 * n)) E("slerp", slerp(V2{1, 0}, V2{0, 1}, 0.1 * n)) E("smoothstep", smoothstep(0.0, 2.0, x) + smootherstep(0.0, 2.0, x)) E("quadratic_bezier", quadratic_bezier(V2{0, x}, V2{1, 1}, V2{2, 0}, 0.1 * n)) E("cubic_bezier", cubic_bezier(V2{0, x}, V2{1, 1}, V2{2, 0}, V2{3, 3}, 0.1 * n)) E("bezier", bezier(std::vector<V2>{{0, x}, {1, 1}, {2, 0}, {3, 3}}, 0.1 * n))
	static const spline S(DX[0], DY[0]);
	E("spline", S(x)) E("spline derivative", S.deriv(x)) OP("spline construction", spline s(V{0, 1, 2, 4}, V{x, 1, 3, 2}); return s(0.5) + s(x) + s.deriv(1.5);)
	OP("spline of nodes", auto s = cubic_splines(std::vector<V2>{{0, x}, {1, 2}, {2, 1}, {3, 3}}); real r = 0; for (auto& nd : s) r += nd.x + 2 * nd.a + 3 * nd.b + 4 * nd.c + 5 * nd.d; return r;)
}
static void calculus_ops() {
	E("deriv_central", deriv_central(cubic, x)) E("deriv_forward", deriv_forward(cubic, x)) E("deriv_backward", deriv_backward(cubic, x)) E("deriv_ridders2", deriv_ridders2(cubic, x)) E("deriv_ridders", deriv_ridders(cubic, x, 0.01, 1 + k % 4)) E("deriv", deriv(cubic, x)) E("deriv2", deriv2(cubic, x))
	E("integral_midpoint", integral_midpoint(cubic, 0, x, n)) E("integral_trapezoid", integral_trapezoid(cubic, 0, x, n)) E("integral_simpson", integral_simpson(cubic, 0, x, n)) E("integral_romberg", integral_romberg(cubic, 0, x, n)) E("integral_romberg_tol", integral_romberg_tol(cubic, 0, theoretica::clamp(x, -1.0, 1.0), 1e-8)) E("integral_legendre", integral_legendre(cubic, 0, x, 2u << (k % 4))) E("integral_legendre of other sizes", integral_legendre(cubic, 0, x, n)) E("integral_legendre of given nodes", integral_legendre(cubic, 0.0, x, legendre_roots(n)))
	E("integral_laguerre", integral_laguerre(cubic, 2u << (k % 4))) E("integral_hermite", integral_hermite(cubic, 2u << (k % 4))) E("integral_gauss", integral_gauss(cubic, V{0.1, 0.7}, V{x, 2})) E("integral_inf_riemann", integral_inf_riemann([](real t) { return 1 / (1 + t * t * t * t); }, 0, 0.5, 1e-3, 50)) E("integral", integral(cubic, 0, x)) E("integral of a tolerance", integral(cubic, 0.0, theoretica::clamp(x, -1.0, 1.0), 1e-6))
	typedef vec<real> W;
	E("step_euler", ode::step_euler(field, W{x, 1}, 0.5, 0.1)) E("step_midpoint", ode::step_midpoint(field, W{x, 1}, 0.5, 0.1)) E("step_heun", ode::step_heun(field, W{x, 1}, 0.5, 0.1)) E("step_rk2", ode::step_rk2(field, W{x, 1}, 0.5, 0.1)) E("step_rk4", ode::step_rk4(field, W{x, 1}, 0.5, 0.1)) E("step_k38", ode::step_k38(field, W{x, 1}, 0.5, 0.1))
	E("solve_euler", ode::solve_euler(field, W{x, 1}, 0, 0.3, 0.1)) E("solve_midpoint", ode::solve_midpoint(field, W{x, 1}, 0, 0.3, 0.1)) E("solve_heun", ode::solve_heun(field, W{x, 1}, 0, 0.3, 0.1)) E("solve_rk2", ode::solve_rk2(field, W{x, 1}, 0, 0.3, 0.1)) E("solve_rk4", ode::solve_rk4(field, W{x, 1}, 0, 0.3, 0.1)) E("solve_k38", ode::solve_k38(field, W{x, 1}, 0, 0.3, 0.1)) OP("text of a solution", return digest(ode::solve_rk4(field, W{x, 1}, 0, 0.3, 0.1).to_string());)
	E("fft", signal::fft(vec<complex<>, 4>{{x, 1}, {0, 1}, {2, x}, {1, 0}})) E("ifft", signal::ifft(vec<complex<>, 4>{{x, 1}, {0, 1}, {2, x}, {1, 0}})) OP("dynamic fft", vec<complex<>> v; v.resize(1u << (k % 4)); for (unsigned i = 0; i < v.size(); ++i) v[i] = complex<>(x + i, i); return digest(signal::fft(v)) + digest(signal::ifft(v));)
}
static void optim_ops() {
	E("root_bisect", root_bisect(cubic, -3 - 0.1 * n, 2)) E("root_itp", root_itp(cubic, -3 - 0.1 * n, 2)) E("root_newton", root_newton(cubic, dcubic, -1.5 - 0.1 * n)) E("root_newton of duals", root_newton(gcubic<dual>, -1.5 - 0.1 * n)) E("root_halley", root_halley(cubic, dcubic, d2cubic, -1.5 - 0.1 * n)) E("root_steffensen", root_steffensen(cubic, -0.9 - 0.01 * n)) E("root_chebyshev", root_chebyshev(cubic, dcubic, d2cubic, -1 - 0.1 * n)) E("root_ostrowski", root_ostrowski(cubic, dcubic, -1 - 0.1 * n)) E("root_jarrat", root_jarrat(cubic, dcubic, -1 - 0.1 * n))
	OP("find_root_intervals", real s = 0; for (auto& v : find_root_intervals(cubic, -2, 2, 10 * n)) s += digest(v); return s;) E("roots", roots(cubic, -2, 2, 1e-8, 10 * n))
	E("maximize_goldensection", maximize_goldensection([](real t) { return -bowl(t); }, -1 - 0.1 * n, 1)) E("minimize_goldensection", minimize_goldensection(bowl, -1 - 0.1 * n, 1)) E("maximize_newton", maximize_newton(nbowl, dnbowl, d2nbowl, 0.1 * n)) E("minimize_newton", minimize_newton(bowl, dbowl, d2bowl, 0.1 * n)) E("minimize_bisection", minimize_bisection(bowl, dbowl, -1 - 0.1 * n, 1)) E("maximize_bisection", maximize_bisection(nbowl, dnbowl, -1 - 0.1 * n, 1))
	typedef vec<real, 2> V2;
	E("multi_minimize_grad", multi_minimize_grad<2>(bowl2, V2{0.1, 0.02 * n}, -0.2, 1e-3, 50)) E("multi_maximize_grad", multi_maximize_grad<2>(hill2, V2{0.1, 0.02 * n}, 0.2, 1e-3, 50)) E("multi_minimize_lingrad", multi_minimize_lingrad<2>(bowl2, V2{0.1, 0.02 * n}, 1e-3, 3)) E("multi_maximize_lingrad", multi_maximize_lingrad<2>(hill2, V2{0.1, 0.02 * n}, 1e-3, 3)) E("multi_minimize", multi_minimize<2>(bowl2, V2{0.1, 0.02 * n}, 1e-2)) E("multi_maximize", multi_maximize<2>(hill2, V2{0.1, 0.02 * n}, 1e-2)) E("multiroot_newton", multiroot_newton<2>([](vec<multidual<2>, 2> v) { return vec<multidual<2>, 2>{v[0] * v[0] - v[1], v[0] + v[1] - 2.0}; }, V2{1.2, 0.9 + 0.01 * n}))
}
static void random_ops() {
	#define G1 PRNG g = PRNG::wyrand(1 + k);
	OP("congruential", PRNG g = PRNG::linear_congruential(1 + k); return digest(g()) + digest(g()) + digest(g.last());) OP("xoshiro", PRNG g = PRNG::xoshiro(1 + k); g.discard(2); return digest(g());) OP("splitmix64", PRNG g = PRNG::splitmix64(1 + k); return digest(g()) + digest(g());) OP("wyrand", G1 return digest(g()) + digest(g());) OP("middlesquare", PRNG g = PRNG::middlesquare(1 + k); return digest(g()) + digest(g());) OP("reseeding", G1 g.seed(9 * n); PRNG h = g; return digest(g()) + digest(h());)
	OP("bare generators", std::vector<uint64_t> p = {n, 2, 3, 4}; return digest(randgen_xoshiro(0, p)) + digest(randgen_splitmix64(n)) + digest(randgen_middlesquare(n)) + digest(randgen_congruential(n));)
	OP("shuffle", G1 V v = X; shuffle(v, g, n); return digest(v);) OP("rand_uniform", G1 return rand_uniform(0, x, g) + rand_uniform({0, 1}, g);) OP("rand_cointoss", G1 real s = 0; for (unsigned i = 0; i < n; ++i) s = 2 * s + rand_cointoss(g); return s;) OP("rand_diceroll", G1 return rand_diceroll(6, g) + 6 * rand_diceroll(6, g);) OP("rand_trycatch", G1 return rand_trycatch(pdf, vec<real>{2}, 0, 1, 0, 2, g);) OP("rand_rejectsamp", G1 return rand_rejectsamp(pdf, vec<real>{2}, [](real) { return 2.0; }, [](real u) { return u / 2; }, g);)
	OP("rand_gaussian_clt", G1 return rand_gaussian_clt(0, 1 + x * x, g) + rand_gaussian_clt(0, 1, g, n);) OP("rand_exponential", G1 return rand_exponential(n, g);) OP("rand_rayleigh", G1 return rand_rayleigh(n, g);) OP("rand_cauchy", G1 return rand_cauchy(x, n, g);) OP("rand_laplace", G1 return rand_laplace(x, n, g);) OP("rand_pareto", G1 return rand_pareto(n, 2, g);)
	OP("pdf_sampler", G1 auto s = pdf_sampler::exponential(n, g); V v(3); s.fill(v); real r; s >> r; return digest(v) + s() + s.next() + r;) OP("metropolis", G1 auto q = pdf_sampler::uniform(-1, 1, g); return metropolis([](real t) { return theoretica::exp(-t * t); }, q, 0.1 * n, g, 5);) OP("metropolis of one generator", G1 auto q = pdf_sampler::uniform(-1, 1, g); return metropolis([](real t) { return theoretica::exp(-t * t); }, q, 0.1 * n, 5);)
	E("qrand_weyl", qrand_weyl(n)) E("qrand_weyl_recurr", qrand_weyl_recurr(0.1 * n)) E("qrand_weyl_multi", qrand_weyl_multi<3>(n, 0.8)) E("qrand_weyl2", qrand_weyl2(n))
	typedef vec<vec2, 2> EX;
	OP("integral_crude", G1 return integral_crude(cubic, 0, x, g, 4);) OP("integral_crude in two dimensions", G1 return integral_crude<2>(fsum, EX{{0, x}, {0, 1}}, g, 4);) OP("integral_quasi_crude", return integral_quasi_crude(cubic, 0, x, 4);) OP("integral_quasi_crude in two dimensions", return integral_quasi_crude<2>(fsum, EX{{0, x}, {0, 1}}, 4);)
	OP("integral_hom", G1 return integral_hom([](real t) { return t * t; }, 0, 1, 1, g, 5) + integral_hom([](real t) { return t * t; }, 0, 1, 0, 1, g, 5);) OP("integral_quasi_hom", return integral_quasi_hom([](real t) { return t * t; }, 0, 1, 1, 4 + n) + integral_quasi_hom([](real t) { return t * t; }, 0, 1, 0, 1, 4 + n);) OP("integral_hom_2d", G1 return integral_hom_2d(prod2, 0, 1, 0, 1, 1, g, 5);)
	OP("integral_impsamp", G1 return integral_impsamp([](real t) { return t; }, [](real) { return 1.0; }, [](real u) { return u; }, g, 4);) OP("integral_quasi_impsamp", return integral_quasi_impsamp([](real t) { return t; }, [](real) { return 1.0; }, [](real u) { return u; }, 4 + n);)
}
static void stats_ops() {
	E("mean", stats::mean(X)) E("range", stats::range(X)) E("semidispersion", stats::semidispersion(X)) E("propagate_sum", stats::propagate_sum(X)) E("propagate_product", stats::propagate_product(X, Y)) E("total_sum_squares", stats::total_sum_squares(X)) E("variance", stats::variance(X, k % 2)) OP("moments2", real a, b; stats::moments2(X, a, b); return a + 3 * b;) E("stdev", stats::stdev(X)) E("stdom", stats::stdom(X)) E("standard_relative_error", stats::standard_relative_error(X)) E("covariance", stats::covariance(X, Y))
	E("correlation_coefficient", stats::correlation_coefficient(X, Y)) E("autocorrelation", stats::autocorrelation(X, 1 + k % 2)) E("absolute_deviation", stats::absolute_deviation(X)) E("skewness", stats::skewness(X)) E("kurtosis", stats::kurtosis(X)) E("gaussian_expectation", stats::gaussian_expectation(cubic, x, 1)) E("z_score", stats::z_score(x, 0, 2)) E("normalize_z_score", stats::normalize_z_score(X)) E("chi_square", stats::chi_square(X, Y, Y)) E("pvalue", stats::pvalue_chi_squared(theoretica::abs(x), n)) E("chi_square_linear", stats::chi_square_linear(X, Y, Y, x, 1)) E("reduced_chi_square_linear", stats::reduced_chi_square_linear(X, Y, Y, x, 1))
	OP("histogram", histogram h(X, n); h.insert(x); return digest(h.bins()) + h.mean() + stats::variance(h) + h(x) + h.max() + h.min() + h.tss() + digest(h.to_string()) + h.index(1.5);) OP("histogram of a range", histogram h(n, 0, 2); h.insert(x); h.insert(0.5); return digest(h.bins()) + h.number() + stats::mean(h) + stats::stdev(h);)
	using namespace distribution;
	E("gaussian", distribution::gaussian(x, 0, 1)) E("bernoulli", bernoulli(k % 2, 0.3)) E("poisson", poisson(n, 2.5)) E("binomial", binomial(n, 9, 0.3)) E("chi_squared", chi_squared(theoretica::abs(x), n)) E("gamma density", distribution::gamma(theoretica::abs(x), 2, 3)) E("beta density", distribution::beta(0.1 * n, 2, 3)) E("student", student(x, n)) E("log_normal", log_normal(x, 0, 1)) E("exponential", exponential(x, 2)) E("rayleigh", rayleigh(x, 2)) E("cauchy", cauchy(x, 0, 1)) E("breit_wigner", breit_wigner(x, 1, 2)) E("maxwell", maxwell(x, 2)) E("laplace", laplace(x, 0, 1)) E("pareto", pareto(x, 1, 2)) E("erlang", erlang(theoretica::abs(x), n, 2)) E("multinomial", multinomial({n, 2}, n + 2, 2, {0.3, 0.7}))
	E("likelihood", stats::likelihood(vec<real>{x, 0.5}, vec<real>{0, 1}, [](real t, const vec<real>& th) { return distribution::gaussian(t, th); }) + stats::log_likelihood(vec<real>{x, 0.5}, vec<real>{0, 1}, [](real t, const vec<real>& th) { return distribution::gaussian(t, th); }))
	OP("ols_linear", real a, b, s, t, u; regression::ols_linear(X, Y, a, b); regression::ols_linear(X, Y, 0.5, a, s, b, t); return a + b + s + t + (u = 0);) OP("wls_linear", real a, b; mat2 c; regression::wls_linear(X, Y, Y, a, b, c); return a + 3 * b + digest(c);) OP("regression through the origin", real b, s, c, t; regression::ols_linear_orig(X, Y, 0.5, b, s); regression::wls_linear_orig(X, Y, Y, c, t); return b + c + s + t;) E("ols_linear_slope", regression::ols_linear_slope(X, Y) + regression::ols_linear_intercept(X, Y)) E("wls_linear_slope", regression::wls_linear_slope(X, Y, Y) + regression::wls_linear_intercept(X, Y, Y)) E("ols_linear_error", regression::ols_linear_error(X, Y, x, 1)) OP("linear_model", regression::linear_model m(X, Y); return m.A + m.B + m(x) + digest(m.to_string());) OP("weighted linear_model", regression::linear_model m(X, Y, Y); return m.A + m.B + m.chi_squared;)
	E("covariance matrix", stats::covar_mat<mat<real>>(std::vector<V>{X, Y})) OP("error_propagation", return stats::error_propagation<2>(mf, vec<real, 2>{x, 2}, vec<real, 2>{0.1, 0.2});)
}
static const std::vector<Op>& ops() { auto& v = list(); if (v.empty()) { core(); algebra_ops(); number_ops(); poly_ops(); calculus_ops(); optim_ops(); random_ops(); stats_ops(); } return v; }

// two threads in the same function, every pair of regimes within a distance, every schedule
static void pairs(size_t part, size_t parts) {
	const auto& c = ops();
	for (size_t i = part; i < c.size(); i += parts) {
		real want[K]; bool got = false;
		for (int a = 0; a < K; ++a) for (int b = a; b < K; ++b) {
			if (!vf::begin("%s(%d) || %s(%d)", c[i].name, a, c[i].name, b)) continue;
			if (!got) { for (int k = 0; k < K; ++k) want[k] = c[i].f(k); got = true; }
			real u = 0, v = 0;
			auto r = sched::explore(2, sched::REDUCED, 1, vf::thorough() ? 2000 : 60, [&] { u = v = 12345; sched::threads({[&] { u = c[i].f(a); }, [&] { v = c[i].f(b); }}); }, [&] { vf::alive();
				CHECKF("value", same(u, want[a]) && same(v, want[b]), "%s gives %.17g and %.17g instead of %.17g and %.17g", c[i].name, u, v, want[a], want[b]); vf::state(vf::mix(vf::hd(u), vf::hd(v)));
			});
			account(r);
		}
	}
}
SECTION(t01_each_0) { pairs(0, 6); }
SECTION(t01_each_1) { pairs(1, 6); }
SECTION(t01_each_2) { pairs(2, 6); }
SECTION(t01_each_3) { pairs(3, 6); }
SECTION(t01_each_4) { pairs(4, 6); }
SECTION(t01_each_5) { pairs(5, 6); }
// what a child process reports
static bool child(const std::function<void(std::string&, std::vector<real>&)>& f, std::string& m, std::vector<real>& v) {
	int fd[2]; if (pipe(fd)) abort();
	fflush(nullptr);
	pid_t p = fork();
	if (!p) {
		close(fd[0]); f(m, v); uint64_t n[2] = {v.size(), m.size()};
		if (write(fd[1], n, sizeof n) < 0 || write(fd[1], v.data(), v.size() * sizeof(real)) < 0 || write(fd[1], m.data(), m.size()) < 0) _exit(3);
		_exit(0);
	}
	close(fd[1]);
	std::string all; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, k);
	close(fd[0]);
	int st = 0; waitpid(p, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st) || all.size() < 16) return false;
	uint64_t n[2]; memcpy(n, all.data(), 16); v.resize(n[0]); memcpy(v.data(), all.data() + 16, n[0] * sizeof(real)); m.assign(all, 16 + n[0] * sizeof(real), n[1]);
	return true;
}
// first calls of the process from two threads
SECTION(t01_each_cold) {
	const auto& c = ops();
	for (size_t i = 0; i < c.size(); ++i) for (int a = 0; a < K; ++a) {
		if (!vf::begin("%s(%d) || %s(%d), first calls of the process", c[i].name, a, c[i].name, (a + 1) % K)) continue;
		const int b = (a + 1) % K; std::string m; std::vector<real> v;
		const bool ok = child([&](std::string& m, std::vector<real>& v) {
			real p = 0, q = 0; auto r = sched::explore(2, sched::REDUCED, 1, 4, [&] { sched::threads({[&] { p = c[i].f(a); }, [&] { q = c[i].f(b); }}); }, [] {});
			m = r.error; const real p1 = c[i].f(a), q1 = c[i].f(b); if (m.empty() && (!same(p, p1) || !same(q, q1))) m = "the values differ from those of later calls"; v = {(real) r.schedules, (real) r.points};
		}, m, v);
		CHECK("cold_process", ok); CHECKF("cold_race", m.empty(), "%s", m.c_str());
		if (ok) { vf::count("schedules", (uint64_t) v[0]); vf::count("visible operations", (uint64_t) v[1]); vf::state(vf::mix(i, (uint64_t) v[1])); }
	}
}
// no memory of earlier calls: in a fresh process, every ordered pair of regimes of the same function,
// and the whole catalogue forwards and backwards
SECTION(t01_each_history) {
	const auto& c = ops();
	for (size_t i = 0; i < c.size(); ++i) {
		if (!vf::begin("%s: all ordered pairs of calls", c[i].name)) continue;
		std::vector<real> alone(K); bool ok = true; std::string m; vf::count("processes", K + K);
		for (int a = 0; a < K; ++a) { std::vector<real> v; ok = child([&](std::string&, std::vector<real>& v) { v = {c[i].f(a)}; }, m, v) && ok; if (ok) alone[a] = v[0]; }
		CHECK("alone_process", ok);
		if (ok) for (int a = 0; a < K; ++a) {
			std::vector<real> v; ok = child([&](std::string&, std::vector<real>& v) { for (int b = 0; b < K; ++b) { v.push_back(c[i].f(a)); v.push_back(c[i].f(b)); v.push_back(c[i].f(b)); } }, m, v); CHECK("history_process", ok && v.size() == 3 * K);
			if (ok) for (int b = 0; b < K; ++b) { CHECKF("history", same(v[3 * b], alone[a]) && same(v[3 * b + 1], alone[b]) && same(v[3 * b + 2], alone[b]), "%s: after other calls regimes %d, %d give %.17g, %.17g, %.17g instead of %.17g, %.17g", c[i].name, a, b, v[3 * b], v[3 * b + 1], v[3 * b + 2], alone[a], alone[b]); vf::state(vf::mix(vf::hd(v[3 * b]), vf::hd(v[3 * b + 1]))); }
		}
	}
	if (vf::begin("the whole catalogue forwards and backwards")) {
		std::vector<real> f, b; std::string m; const size_t N = c.size() * K;
		bool ok = child([&](std::string&, std::vector<real>& v) { for (size_t j = 0; j < N; ++j) v.push_back(c[j / K].f(j % K)); }, m, f) && child([&](std::string&, std::vector<real>& v) { for (size_t j = N; j-- > 0;) v.push_back(c[j / K].f(j % K)); }, m, b) && f.size() == N && b.size() == N;
		CHECK("order_process", ok);
		if (ok) for (size_t j = 0; j < N; ++j) CHECKF("order", same(f[j], b[N - 1 - j]), "%s(%d) depends on the order of the calls: %.17g, %.17g", c[j / K].name, (int) (j % K), f[j], b[N - 1 - j]);
	}
}
VF_MAIN
