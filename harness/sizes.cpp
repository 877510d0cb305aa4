// Size sweeps: every operation at every size of a long range (block, unrolling and buffer boundaries), on data in
// which every element is distinguishable, against the definition in exact or long double arithmetic.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
#include <map>
#include <sstream>
using namespace theoretica;
typedef long double L; typedef std::vector<double> D;
static std::vector<unsigned> sizes(unsigned full, unsigned top) { std::vector<unsigned> r; for (unsigned n = 1; n <= full; ++n) r.push_back(n); for (unsigned p = 2; p <= top; p *= 2) for (int d = -1; d <= 1; ++d) if (p + d > full && p + d <= top + 1) r.push_back(p + d); return r; }
static double el(unsigned i, int s) { return s == 0 ? (double) ((int) ((i * 37 + 11) % 61) - 30) : s == 1 ? (double) ((int) ((i * 53 + 5) % 47) - 20) : (double) (i + 1); }
template<class W> static W mk(unsigned n, int s) { W v; v.resize(n); for (unsigned i = 0; i < n; ++i) v[i] = el(i, s); return v; }
static D dm(unsigned n, int s) { D v(n); for (unsigned i = 0; i < n; ++i) v[i] = el(i, s); return v; }
template<class W> static void same(const char* tag, const W& w, const D& d) { ++vf::S().checks; if (w.size() != d.size()) { vf::fail(tag, "size %zu instead of %zu", (size_t) w.size(), d.size()); return; } for (size_t i = 0; i < d.size(); ++i) if (!((double) w[i] == d[i])) { vf::fail(tag, "element %zu of %zu is %.17g instead of %.17g", i, d.size(), (double) w[i], d[i]); return; } }
template<class W> static void samenear(const char* tag, const W& w, const D& d, double r) { ++vf::S().checks; if (w.size() != d.size()) { vf::fail(tag, "size %zu instead of %zu", (size_t) w.size(), d.size()); return; } for (size_t i = 0; i < d.size(); ++i) if (!(std::fabs((double) w[i] - d[i]) <= r * (1 + std::fabs(d[i])))) { vf::fail(tag, "element %zu of %zu is %.17g instead of %.17g", i, d.size(), (double) w[i], d[i]); return; } }
template<class F> static D zip(const D& a, const D& b, F f) { D r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = f(a[i], b[i]); return r; }

struct T { unsigned r, c; D v; double& at(unsigned i, unsigned j) { return v[(size_t) i * c + j]; } double at(unsigned i, unsigned j) const { return v[(size_t) i * c + j]; } };
static T tab(unsigned r, unsigned c, int s) { T t{r, c, D((size_t) r * c)}; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) t.at(i, j) = (double) ((int) ((i * 31 + j * 17 + s * 7 + (i * j) % 5) % 41) - 19); return t; }
template<class M> static M mkm(const T& t) { M m; m.resize(t.r, t.c); for (unsigned i = 0; i < t.r; ++i) for (unsigned j = 0; j < t.c; ++j) m(i, j) = t.at(i, j); return m; }
template<class M> static void same(const char* tag, const M& m, const T& t) { ++vf::S().checks; if (m.rows() != t.r || m.cols() != t.c) { vf::fail(tag, "shape %ux%u instead of %ux%u", m.rows(), m.cols(), t.r, t.c); return; } for (unsigned i = 0; i < t.r; ++i) for (unsigned j = 0; j < t.c; ++j) if (!((double) m(i, j) == t.at(i, j))) { vf::fail(tag, "element (%u, %u) of %ux%u is %.17g instead of %.17g", i, j, t.r, t.c, (double) m(i, j), t.at(i, j)); return; } }
template<class F> static T zip(const T& a, const T& b, F f) { T r = a; for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = f(a.v[i], b.v[i]); return r; }
static T tp(const T& a) { T r{a.c, a.r, D(a.v.size())}; for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) r.at(j, i) = a.at(i, j); return r; }
static T mm(const T& a, const T& b) { T r{a.r, b.c, D((size_t) a.r * b.c, 0)}; for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < b.c; ++j) { double s = 0; for (unsigned k = 0; k < a.c; ++k) s += a.at(i, k) * b.at(k, j); r.at(i, j) = s; } return r; }
template<unsigned N> static multidual<N> sq(vec<multidual<N>, N> x) { multidual<N> r(0.0); for (unsigned i = 0; i < N; ++i) r = r + x[i] * x[i] * multidual<N>((real) (i + 1)); return r; }

#if !defined(SZ) || SZ == 1
// ---- A01 ----------------------------------------------------------------------------------------
template<class W, class W2> static void vecs(unsigned n, const char* ty) {
	if (!vf::begin("%s of %u elements", ty, n)) return;
	const W a = mk<W>(n, 0), b = mk<W>(n, 1); const D x = dm(n, 0), y = dm(n, 1); errno = 0; vf::state(n);
	D s = zip(x, y, [](double p, double q) { return p + q; }), d = zip(x, y, [](double p, double q) { return p - q; }), m3 = zip(x, y, [](double p, double) { return p * 3; }), q4 = zip(x, y, [](double p, double) { return p / 4; }), ng = zip(x, y, [](double p, double) { return -p; });
	L dot_ = 0, nn = 0; for (unsigned i = 0; i < n; ++i) { dot_ += x[i] * y[i]; nn += x[i] * x[i]; }
	same("sum", a + b, s); same("difference", a - b, d); same("multiple", a * 3.0, m3); same("multiple", 3.0 * a, m3); same("quotient", a / 4.0, q4); same("opposite", -a, ng); same("plus", +a, x);
	EQ("dot", (double) a.dot(b), (double) dot_); EQ("dot", (double) (a * b), (double) dot_); EQ("dot", (double) algebra::dot(a, b), (double) dot_); EQ("norm", (double) a.sqr_norm(), (double) nn); NEAR("norm", a.norm(), sqrtl(nn), 1e-14, 0); NEAR("norm", algebra::norm(a), sqrtl(nn), 1e-14, 0); EQ("norm", (double) algebra::sqr_norm(a), (double) nn);
	{ W c = a; c += b; same("+=", c, s); c = a; c -= b; same("-=", c, d); c = a; c *= 3; same("*=", c, m3); c = a; c /= 4; same("/=", c, q4); c = a; c += c; same("+= itself", c, zip(x, x, [](double p, double q) { return p + q; })); c = a; c -= c; same("-= itself", c, D(n, 0)); }
	{ D u = x; for (auto& v : u) v /= (double) sqrtl(nn); samenear("normalized", a.normalized(), u, 1e-14); W c = a; c.normalize(); samenear("normalize", c, u, 1e-14); samenear("normalize", algebra::normalize(a), u, 1e-14); c = a; algebra::make_normalized(c); samenear("make_normalized", c, u, 1e-14); }
	{ W c = a; CHECK("equal", c == a && !(c != a)); for (unsigned k : {0u, n / 2, n - 1}) { c = a; c[k] += 1; CHECKF("different", c != a && !(c == a), "at %u", k); c = a; c.set(k, 77); D u = x; u[k] = 77; same("set", c, u); c = a; c.at(k) = -5; u[k] = -5; same("at", c, u); EQ("get", c.get(k), -5.0); } size_t k = 0; bool ok = true; for (auto v : a) { ok = ok && k < n && v == x[k]; ++k; } CHECK("iteration", ok && k == n); k = 0; for (auto& v : c) { v = 2 * (double) k; ++k; } D u(n); for (unsigned i = 0; i < n; ++i) u[i] = 2 * i; same("iteration", c, u); }
	{ W c = mk<W>(n, 2); algebra::vec_sum(c, a); same("vec_sum", c, zip(dm(n, 2), x, [](double p, double q) { return p + q; })); c = mk<W>(n, 2); algebra::vec_diff(c, a); same("vec_diff", c, zip(dm(n, 2), x, [](double p, double q) { return p - q; })); c = mk<W>(n, 2); algebra::vec_sum(c, a, b); same("vec_sum", c, s); algebra::vec_diff(c, a, b); same("vec_diff", c, d); algebra::vec_scalmul(c, 3.0, a); same("vec_scalmul", c, m3); c = a; algebra::vec_scalmul(3.0, c); same("vec_scalmul", c, m3); algebra::vec_copy(c, b); same("vec_copy", c, y); algebra::vec_zeroes(c); same("zeroes", c, D(n, 0)); }
	for (unsigned k : {0u, n / 2, n - 1}) { D u(n, 0); u[k] = 1; same("base", W::euclidean_base(k, n), u); }
	{ W2 o = mk<W2>(n, 1); same("mixed sum", a + o, s); W c = a; c += o; same("mixed +=", c, s); c = a; c -= o; same("mixed -=", c, d); EQ("mixed dot", (double) a.dot(o), (double) dot_); c = o; same("mixed assignment", c, y); }
	CHECK("no error", errno == 0); same("first operand kept", a, x); same("second operand kept", b, y);
	std::string t = "("; for (unsigned i = 0; i < n; ++i) { std::ostringstream o; o << x[i]; t += (i ? ", " : "") + o.str(); } t += ")"; EQ("printed", a.to_string() == t, true); std::ostringstream o; o << a; EQ("printed", o.str() == t, true);
}
template<unsigned N> static void vecn() { vecs<vec<real, N>, vec<real, N>>(N, "static vector"); }
template<unsigned... N> static void vecall(std::integer_sequence<unsigned, N...>) { (vecn<N + 1>(), ...); }
SECTION(sz_vec) { for (unsigned n : sizes(vf::thorough() ? 600 : 160, vf::thorough() ? 16384 : 1024)) vecs<vec<real>, vec<real>>(n, "vector"); }
SECTION(sz_vec_static) { vecall(std::make_integer_sequence<unsigned, 18>()); vecn<31>(); vecn<32>(); vecn<33>(); vecn<64>(); vecn<65>(); vecn<129>(); }
SECTION(sz_vec_history) {
	// growth by push and resize through every size
	for (unsigned top : {70u, vf::thorough() ? 5000u : 600u}) if (vf::begin("growth to %u", top)) { vec<real> v; D m; for (unsigned i = 0; i < top; ++i) { if (i % 3) v.push(el(i, 2)); else { real x = el(i, 2); v.push(x); } m.push_back(el(i, 2)); EQ("size", v.size(), i + 1); if (i % 7 == 0 || i + 1 == top) same("push", v, m); } for (unsigned n = top; n > 0; n -= std::max(1u, n / 9)) { v.resize(n); m.resize(n); same("shrink", v, m); } for (unsigned n = 1; n < top; n += 1 + n / 5) { v.resize(n); m.resize(n, 0); same("grow", v, m); v[n - 1] = m[n - 1] = n; } }
	for (unsigned n : sizes(40, 256)) for (int d : {-3, -1, 1, 2}) { if ((int) n + d < 1) continue; if (!vf::begin("sizes %u and %u", n, n + d)) continue; auto a = mk<vec<real>>(n, 0), b = mk<vec<real>>(n + d, 1); auto bad = [&](const char* t, const vec<real>& r) { bool ok = errno != 0; for (auto v : r) ok = ok && v != v; CHECK(t, ok && r.size() > 0); errno = 0; }; errno = 0; bad("sum refused", a + b); bad("difference refused", a - b); ISNAN("dot refused", a * b); CHECK("dot error", errno != 0); errno = 0; auto c = a; c += b; bad("+= refused", c); c = a; c -= b; bad("-= refused", c); CHECK("unequal", a != b && !(a == b)); }
}

#endif
#if !defined(SZ) || SZ == 2
// ---- A02, A03 -----------------------------------------------------------------------------------
template<class M> static void squares(const M&, const T&, unsigned, std::false_type) {}
template<class M> static void squares(const M& a, const T& x, unsigned r, std::true_type) { if (x.r != x.c) return;
	double tr = 0, sq = 1; for (unsigned i = 0; i < r; ++i) { tr += x.at(i, i); sq *= x.at(i, i); } EQ("trace", (double) algebra::trace(a), tr); NEAR("diagonal product", algebra::diagonal_product(a), sq, 1e-12, 0); M e = a; e.transpose(); same("transposed in place", e, tp(x)); e = a; algebra::make_transposed(e); same("make_transposed", e, tp(x)); e = a; algebra::make_hermitian(e); same("make_hermitian", e, tp(x));
		// each predicate is broken by a single element, wherever it is
		M f; f.resize(r, r); algebra::mat_zeroes(f); for (unsigned i = 0; i < r; ++i) f(i, i) = i + 1; CHECK("diagonal", algebra::is_diagonal(f) && algebra::is_symmetric(f) && algebra::is_lower_triangular(f) && algebra::is_upper_triangular(f)); NEAR("density", algebra::density(f), 1.0 / r, 1e-12, 0); NEAR("sparsity", algebra::sparsity(f), 1 - 1.0 / r, 1e-12, 1e-12);
		for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < r; ++j) { if (i == j || (r > 12 && i != 0 && j != 0 && i != r - 1 && j != r - 1 && i + 1 != j && j + 1 != i)) continue; M g = f; g(i, j) = 1; CHECKF("predicates", !algebra::is_diagonal(g) && !algebra::is_symmetric(g) && algebra::is_lower_triangular(g) == (i > j) && algebra::is_upper_triangular(g) == (i < j), "element %u %u", i, j); g(j, i) = 1; CHECKF("symmetric", algebra::is_symmetric(g), "elements %u %u", i, j); } 
}
template<class M, class MT> static void mats(unsigned r, unsigned c, const char* ty) {
	if (!vf::begin("%s %u x %u", ty, r, c)) return;
	vf::state(r * 1000 + c); errno = 0; const T x = tab(r, c, 0), y = tab(r, c, 3); const M a = mkm<M>(x), b = mkm<M>(y);
	T s = zip(x, y, [](double p, double q) { return p + q; }), d = zip(x, y, [](double p, double q) { return p - q; }), m3 = zip(x, y, [](double p, double) { return 3 * p; }), q4 = zip(x, y, [](double p, double) { return p / 4; });
	same("built", a, x); same("sum", a + b, s); same("difference", a - b, d); same("multiple", a * 3.0, m3); same("multiple", 3.0 * a, m3); same("quotient", a / 4.0, q4);
	{ M e = a; e += b; same("+=", e, s); e = a; e -= b; same("-=", e, d); e = a; e *= 3.0; same("*=", e, m3); e = a; e /= 4.0; same("/=", e, q4); e = a; e += e; same("+= itself", e, zip(x, x, [](double p, double q) { return p + q; })); CHECK("equal", a == a && !(a != a) && a != b); e = a; e(r - 1, c - 1) += 1; CHECK("last element counts", e != a && !(e == a)); e = a; e(0, c - 1) -= 1; CHECK("corner counts", !algebra::mat_equals(e, a) && algebra::mat_equals(a, a)); e.make_zeroes(); same("zeroes", e, T{r, c, D(x.v.size(), 0)}); }
	{ M e = a; for (unsigned k : {0u, r / 2, r - 1}) for (unsigned l : {0u, r / 3, r - 1}) { e = a; algebra::mat_swap_rows(e, k, l); T u = x; for (unsigned j = 0; j < c; ++j) std::swap(u.at(k, j), u.at(l, j)); same("rows exchanged", e, u); } for (unsigned k : {0u, c / 2, c - 1}) for (unsigned l : {0u, c / 3, c - 1}) { e = a; algebra::mat_swap_cols(e, k, l); T u = x; for (unsigned i = 0; i < r; ++i) std::swap(u.at(i, k), u.at(i, l)); same("columns exchanged", e, u); } e = a; algebra::mat_shift_diagonal(e, 5.0); T u = x; for (unsigned i = 0; i < std::min(r, c); ++i) u.at(i, i) += 5; same("shifted diagonal", e, u); }
	{ M e = a; algebra::mat_sum(e, b); same("mat_sum", e, s); e = a; algebra::mat_diff(e, b); same("mat_diff", e, d); algebra::mat_sum(e, a, b); same("mat_sum", e, s); algebra::mat_diff(e, a, b); same("mat_diff", e, d); algebra::mat_scalmul(e, 3.0, a); same("mat_scalmul", e, m3); e = a; algebra::mat_scalmul(3.0, e); same("mat_scalmul", e, m3); algebra::mat_lincomb(e, 2.0, a, -3.0, b); T l = zip(x, y, [](double p, double q) { return 2 * p - 3 * q; }); same("mat_lincomb", e, l); e = a; algebra::mat_lincomb(2.0, e, -3.0, b); same("mat_lincomb", e, l); algebra::mat_copy(e, b); same("mat_copy", e, y); algebra::mat_zeroes(e); same("mat_zeroes", e, T{r, c, D(x.v.size(), 0)}); T id{r, c, D(x.v.size(), 0)}; for (unsigned i = 0; i < std::min(r, c); ++i) id.at(i, i) = 1; algebra::make_identity(e); same("identity", e, id); }
	{ MT t; t.resize(c, r); algebra::transpose(t, a); same("transpose", t, tp(x)); algebra::hermitian(t, a); same("hermitian", t, tp(x)); }
	{ vec<real> v = mk<vec<real>>(c, 1), w; w.resize(r); D e(r); for (unsigned i = 0; i < r; ++i) { e[i] = 0; for (unsigned j = 0; j < c; ++j) e[i] += x.at(i, j) * el(j, 1); } algebra::transform(w, a, v); same("transformed vector", w, e); same("vector kept", v, dm(c, 1)); if (r == c) { same("transform", algebra::transform(a, v), e); same("transform", a.transform(v), e); vec<real> u = v; algebra::apply_transform(a, u); same("apply_transform", u, e); } }
	{ size_t k = 0; D seen; for (auto v : a) { seen.push_back(v); ++k; } EQ("iteration visits every element", k, x.v.size()); EQ("size", (size_t) a.size(), x.v.size()); D all = x.v; std::sort(all.begin(), all.end()); std::sort(seen.begin(), seen.end()); CHECK("iteration", all == seen); }
	squares<M>(a, x, r, std::is_same<M, MT>());
	CHECK("no error", errno == 0); same("first operand kept", a, x); same("second operand kept", b, y);
}
SECTION(sz_mat) { auto s = vf::thorough() ? sizes(24, 64) : sizes(13, 32); for (unsigned r : s) for (unsigned c : s) mats<mat<real>, mat<real>>(r, c, "matrix"); }
template<unsigned R, unsigned C> static void matn() { mats<mat<real, R, C>, mat<real, C, R>>(R, C, "static matrix"); }
SECTION(sz_mat_static) { matn<4, 4>(); matn<5, 5>(); matn<6, 6>(); matn<7, 7>(); matn<8, 8>(); matn<9, 9>(); matn<16, 16>(); matn<17, 17>(); matn<33, 33>(); matn<4, 9>(); matn<9, 4>(); matn<1, 8>(); matn<8, 1>(); matn<5, 17>(); matn<17, 5>(); matn<16, 3>(); matn<33, 2>(); }
static void prod(unsigned r, unsigned k, unsigned c) {
	if (!vf::begin("product %u x %u x %u", r, k, c)) return;
	errno = 0; T x = tab(r, k, 1), y = tab(k, c, 5); mat<real> a = mkm<mat<real>>(x), b = mkm<mat<real>>(y); T p = mm(x, y); same("product", a * b, p); same("product", a.mul(b), p); same("mat_mul", algebra::mat_mul(a, b), p); mat<real> e; e.resize(r, c); algebra::mat_mul(e, a, b); same("mat_mul", e, p);
	mat<real> at = mkm<mat<real>>(tp(x)), bt = mkm<mat<real>>(tp(y)); same("transpose product", algebra::mat_transpose_mul(at, b), p); same("product transpose", algebra::mat_mul_transpose(a, bt), p); if (k == c) { mat<real> f = a; f *= b; same("*=", f, p); } CHECK("no error", errno == 0); same("operand kept", a, x); same("operand kept", b, y); vf::state(r * 1000000u + k * 1000 + c);
}
SECTION(sz_mat_product) { auto s = vf::thorough() ? sizes(12, 64) : sizes(8, 32); for (unsigned r : s) for (unsigned k : s) for (unsigned c : s) prod(r, k, c); }
template<unsigned R, unsigned K, unsigned C> static void prodn() { if (!vf::begin("static product %u x %u x %u", R, K, C)) return; errno = 0; T x = tab(R, K, 1), y = tab(K, C, 5); auto a = mkm<mat<real, R, K>>(x); auto b = mkm<mat<real, K, C>>(y); T p = mm(x, y); same("product", a * b, p); same("product", a.mul(b), p); mat<real, R, C> e; algebra::mat_mul(e, a, b); same("mat_mul", e, p); vec<real, K> v = mk<vec<real, K>>(K, 1); vec<real, R> w = a * v; D q(R); for (unsigned i = 0; i < R; ++i) { q[i] = 0; for (unsigned j = 0; j < K; ++j) q[i] += x.at(i, j) * el(j, 1); } same("times vector", w, q); same("transform", a.transform(v), q); CHECK("no error", errno == 0); }
SECTION(sz_mat_product_static) { prodn<4, 4, 4>(); prodn<5, 5, 5>(); prodn<6, 4, 5>(); prodn<8, 8, 8>(); prodn<9, 3, 7>(); prodn<3, 9, 7>(); prodn<16, 17, 15>(); prodn<17, 16, 33>(); prodn<1, 33, 1>(); prodn<33, 1, 33>(); prodn<32, 32, 32>(); }
SECTION(sz_mat_resize) {
	// every pair of shapes: the common region survives, the rest is zero
	auto s = vf::thorough() ? sizes(9, 32) : std::vector<unsigned>{1, 2, 4, 5, 7, 8, 9, 16, 17}; for (unsigned r : s) for (unsigned c : s) for (unsigned p : s) for (unsigned q : s) if (vf::begin("resize %u x %u to %u x %u", r, c, p, q)) { T x = tab(r, c, 2), y{p, q, D((size_t) p * q, 0)}; for (unsigned i = 0; i < std::min(r, p); ++i) for (unsigned j = 0; j < std::min(c, q); ++j) y.at(i, j) = x.at(i, j); mat<real> a = mkm<mat<real>>(x); a.resize(p, q); same("resize", a, y); mat<real> b = a; a(p - 1, q - 1) = 99; same("independent copy", b, y); b = mkm<mat<real>>(x); same("assigned over another shape", b, x); }
}

#endif
#if !defined(SZ) || SZ == 4
// ---- A04 ----------------------------------------------------------------------------------------
SECTION(sz_linear) {
	// structured regular matrices with known determinant and a solution of integers: permutations (every pivot vanishes), unit triangular products, tridiagonal, dominant
	for (unsigned n : vf::thorough() ? sizes(64, 128) : sizes(24, 32)) for (int k = 0; k < 6; ++k) {
		if (!vf::begin("order %u family %d", n, k)) continue; T a{n, n, D((size_t) n * n, 0)}; L dt = 1; bool spd = false;
		if (k == 0) { for (unsigned i = 0; i < n; ++i) a.at(i, (i + 1) % n) = 1; dt = n % 2 ? 1 : -1; if (n == 1) dt = 1; }
		if (k == 1) { for (unsigned i = 0; i < n; ++i) a.at(i, n - 1 - i) = 2; dt = (n / 2) % 2 ? -1 : 1; for (unsigned i = 0; i < n; ++i) dt *= 2; }
		if (k == 2) { for (unsigned i = 0; i < n; ++i) { a.at(i, i) = 2; if (i) a.at(i, i - 1) = a.at(i - 1, i) = -1; } dt = n + 1; spd = true; }
		if (k == 3) { for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) a.at(i, j) = std::min(i, j) + 1; dt = 1; spd = true; }
		if (k == 4) { for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) a.at(i, j) = i == j ? n + 1 : 1; dt = 2 * (L) n; for (unsigned i = 1; i < n; ++i) dt *= n; spd = true; }
		if (k == 5) { for (unsigned i = 0; i < n; ++i) { a.at(i, i) = i % 2 ? -1 : 1; if (i + 1 < n) a.at(i, i + 1) = 1; if (i + 2 < n) a.at(i, i + 2) = -1; } for (unsigned i = 0; i + 1 < n; i += 2) for (unsigned j = 0; j < n; ++j) std::swap(a.at(i, j), a.at(i + 1, j)); dt = 1; for (unsigned i = 0; i < n; ++i) if (i % 2) dt = -dt; for (unsigned i = 0; i + 1 < n; i += 2) dt = -dt; }
		D xs(n), bs(n); for (unsigned i = 0; i < n; ++i) xs[i] = (int) ((i * 5 + 2) % 7) - 3; for (unsigned i = 0; i < n; ++i) { bs[i] = 0; for (unsigned j = 0; j < n; ++j) bs[i] += a.at(i, j) * xs[j]; }
		mat<real> A = mkm<mat<real>>(a); vec<real> b; b.resize(n); for (unsigned i = 0; i < n; ++i) b[i] = bs[i]; double tol = 1e-11 * n * n; errno = 0;
		NEAR("determinant", algebra::det(A), dt, tol, 0); mat<real> inv = algebra::inverse(A); T pr = mm(a, [&] { T t{n, n, D((size_t) n * n)}; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) t.at(i, j) = inv(i, j); return t; }()); bool id = true; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (!(std::fabs(pr.at(i, j) - (i == j)) <= tol * 10)) id = false; CHECK("inverse", id);
		samenear("solve", algebra::solve(A, b), xs, tol); samenear("solve_lu", algebra::solve_lu(A, b), xs, tol); CHECK("no error", errno == 0); same("matrix kept", A, a); same("right side kept", b, bs);
		if (spd) { mat<real> l = algebra::decompose_cholesky(A); bool ok = true; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { L s = 0; for (unsigned q = 0; q < n; ++q) s += (L) l(i, q) * l(j, q); if (!(fabsl(s - a.at(i, j)) <= tol * n) || (j > i && l(i, j) != 0)) ok = false; } CHECK("Cholesky", ok); samenear("solve_cholesky", algebra::solve_cholesky(l, b), xs, tol); mat<real> in = A; algebra::decompose_cholesky_inplace(in); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) if (!(std::fabs(in(i, j) - l(i, j)) <= tol)) ok = false; CHECK("Cholesky in place", ok);
			mat<real> lo, up; lo.resize(n, n); up.resize(n, n); algebra::decompose_lu(A, lo, up); ok = true; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { L s = 0; for (unsigned q = 0; q < n; ++q) s += (L) lo(i, q) * up(q, j); if (!(fabsl(s - a.at(i, j)) <= tol * n) || (j > i && std::fabs(lo(i, j)) > tol) || (j < i && std::fabs(up(i, j)) > tol)) ok = false; } CHECK("LU", ok); samenear("solve with LU", algebra::solve_lu(lo, up, b), xs, tol); CHECK("no error", errno == 0); samenear("lower triangular", algebra::solve_triangular_lower(lo, [&] { vec<real> r; r.resize(n); for (unsigned i = 0; i < n; ++i) { r[i] = 0; for (unsigned j = 0; j < n; ++j) r[i] += lo(i, j) * xs[j]; } return r; }()), xs, tol * n); samenear("upper triangular", algebra::solve_triangular_upper(up, [&] { vec<real> r; r.resize(n); for (unsigned i = 0; i < n; ++i) { r[i] = 0; for (unsigned j = 0; j < n; ++j) r[i] += up(i, j) * xs[j]; } return r; }()), xs, tol * n); }
		vf::state(n * 10 + k);
	}
}
#endif
#if !defined(SZ) || SZ == 5
// ---- A05 ----------------------------------------------------------------------------------------
SECTION(sz_eigen) {
	// H D H with a Householder reflection H and a known spectrum, orders up to 12 (24)
	for (unsigned n = 2; n <= (vf::thorough() ? 24u : 12u); ++n) for (int k = 0; k < 2; ++k) { if (!vf::begin("spectrum of order %u, %d", n, k)) continue; D ev(n), u(n); L nu = 0; for (unsigned i = 0; i < n; ++i) { ev[i] = i == 0 ? 1 : i + 1 == n ? 4 * n * (k ? -1 : 1) : 2 + i; u[i] = 1 + (i * 3) % 4; nu += u[i] * u[i]; } auto h = [&](unsigned i, unsigned j) { return (L) (i == j) - 2 * u[i] * u[j] / nu; }; mat<real> A(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { L s = 0; for (unsigned q = 0; q < n; ++q) s += h(i, q) * ev[q] * h(q, j); A(i, j) = s; }
		vec<real> x(n); for (unsigned i = 0; i < n; ++i) x[i] = 1 + 0.1 * i; errno = 0; auto res = [&](const char* t, const vec<real>& v, real lam, real want) { CHECK(t, v.size() == n); if (v.size() != n) return; L e = 0, nn = 0; for (unsigned i = 0; i < n; ++i) { L s = 0; for (unsigned j = 0; j < n; ++j) s += (L) A(i, j) * v[j]; e += (s - lam * v[i]) * (s - lam * v[i]); nn += (L) v[i] * v[i]; } CHECKF(t, sqrtl(e) < 1e-4 * n && fabsl(nn - 1) < 1e-8 && std::fabs(lam - want) < 1e-4 * n, "residual %Lg norm %Lg value %g for %g", sqrtl(e), nn, lam, want); };
		NEAR("power", algebra::eigenvalue_power(A, x), ev[n - 1], 1e-5, 0); vec<real> v(n); real lam = algebra::eigenpair_power(A, x, v); res("power pair", v, lam, ev[n - 1]); NEAR("inverse", algebra::eigenvalue_inverse(A, x), 1.0, 1e-5, 0); lam = algebra::eigenpair_inverse(A, x, v); res("inverse pair", v, lam, 1); v = algebra::eigenvector_inverse(A, ev[n - 1] + 0.125, x); res("shifted inverse", v, ev[n - 1], ev[n - 1]); CHECK("no error", errno == 0); vf::state(n * 2 + k); }
}
#endif
#if !defined(SZ) || SZ == 7
// ---- A07 ----------------------------------------------------------------------------------------
template<class W> static void dist(unsigned n, const char* ty) {
	if (!vf::begin("%s of %u", ty, n)) return;
	W a = mk<W>(n, 0), b = mk<W>(n, 1); L l1 = 0, l2 = 0, li = 0, l3 = 0, d1 = 0, d2 = 0, di = 0, d3 = 0, ca = 0, dt = 0, na = 0, nb = 0; unsigned hm = 0; for (unsigned i = 0; i < n; ++i) { L x = el(i, 0), y = el(i, 1), d = fabsl(x - y); l1 += fabsl(x); l2 += x * x; li = std::max(li, fabsl(x)); l3 += powl(fabsl(x), 3); d1 += d; d2 += d * d; di = std::max(di, d); d3 += d * d * d; if (x != 0 || y != 0) ca += d / (fabsl(x) + fabsl(y)); hm += d != 0; dt += x * y; na += x * x; nb += y * y; }
	errno = 0; double r = 1e-12; NEAR("l1", algebra::l1_norm(a), l1, r, 0); NEAR("l2", algebra::l2_norm(a), sqrtl(l2), r, 0); NEAR("linf", algebra::linf_norm(a), li, r, 0); NEAR("lp", algebra::lp_norm(a, 3), cbrtl(l3), 1e-8, 0); NEAR("Euclidean", algebra::euclidean_distance(a, b), sqrtl(d2), r, 0); NEAR("Minkowski", algebra::minkowski_distance(a, b, 3), cbrtl(d3), 1e-8, 0); NEAR("Manhattan", algebra::manhattan_distance(a, b), d1, r, 0); NEAR("Chebyshev", algebra::chebyshev_distance(a, b), di, r, 0); NEAR("Canberra", algebra::canberra_distance(a, b), ca, r, 0); NEAR("Hamming", algebra::hamming_distance(a, b), hm, 0, 0); NEAR("cosine", algebra::cosine_distance(a, b), dt / sqrtl(na * nb), r, r); NEAR("discrete", algebra::discrete_distance(a, b), hm ? 1 : 0, 0, 0);
	for (unsigned k : {0u, n / 2, n - 1}) { W c = a; c[k] += 64; L d = 64, m = std::max(li, 0.0L); (void) m; NEAR("single difference", algebra::euclidean_distance(a, c), d, r, 0); NEAR("single difference", algebra::manhattan_distance(c, a), d, r, 0); NEAR("single difference", algebra::chebyshev_distance(a, c), d, r, 0); NEAR("single difference", algebra::hamming_distance(c, a), 1, 0, 0); NEAR("single difference", algebra::discrete_distance(a, c), 1, 0, 0); c = a; c[k] = -500; NEAR("largest element", algebra::linf_norm(c), 500, 0, 0); c[k] = 500; NEAR("largest element", algebra::linf_norm(c), 500, 0, 0); } CHECK("no error", errno == 0); vf::state(n);
}
template<unsigned... N> static void distall(std::integer_sequence<unsigned, N...>) { (dist<vec<real, N + 1>>(N + 1, "static vectors"), ...); }
SECTION(sz_dist) { for (unsigned n : sizes(vf::thorough() ? 300 : 80, vf::thorough() ? 4096 : 512)) dist<vec<real>>(n, "vectors"); distall(std::make_integer_sequence<unsigned, 20>()); }

#endif
#if !defined(SZ) || SZ == 8
// ---- P01, Q01 -----------------------------------------------------------------------------------
static polynomial<real> pol(const D& d) { polynomial<real> p; p.coeff.resize(d.size()); for (size_t i = 0; i < d.size(); ++i) p.coeff[i] = d[i]; return p; }
static D pc(unsigned n, int s) { D d = dm(n, s); for (auto& v : d) v = std::fmod(v, 7); if (d.back() == 0) d.back() = 2; return d; }
static void samep(const char* t, const polynomial<real>& p, D d) { D c; for (size_t i = 0; i < p.size(); ++i) c.push_back(p[i]); while (!c.empty() && c.back() == 0) c.pop_back(); while (!d.empty() && d.back() == 0) d.pop_back(); ++vf::S().checks; if (c != d) { size_t i = 0; while (i < c.size() && i < d.size() && c[i] == d[i]) ++i; vf::fail(t, "degree %zu for %zu, first difference at %zu", c.size() - 1, d.size() - 1, i); } }
SECTION(sz_poly) {
	auto s = vf::thorough() ? sizes(40, 128) : sizes(14, 64); for (unsigned n : s) for (unsigned m : s) {
		if (!vf::begin("polynomials with %u and %u coefficients", n, m)) continue; D x = pc(n, 0), y = pc(m, 1), su(std::max(n, m)), di(su.size()), pr(n + m - 1, 0); for (size_t i = 0; i < su.size(); ++i) { double a = i < n ? x[i] : 0, b = i < m ? y[i] : 0; su[i] = a + b; di[i] = a - b; } for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) pr[i + j] += x[i] * y[j];
		const polynomial<real> p = pol(x), q = pol(y); errno = 0; samep("sum", p + q, su); samep("difference", p - q, di); samep("product", p * q, pr); polynomial<real> t = p; t += q; samep("+=", t, su); t = p; t -= q; samep("-=", t, di); t = p; t *= q; samep("*=", t, pr);
		D yy = y; yy.back() = 1; D ex(n + m - 1, 0); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) ex[i + j] += x[i] * yy[j]; if (n <= 30 && m <= 12) { polynomial<real> w = pol(ex) / pol(yy); D c; bool ok = true; for (unsigned i = 0; i < n; ++i) ok = ok && i < w.size() && w[i] == x[i]; for (size_t i = n; i < w.size(); ++i) ok = ok && w[i] == 0; CHECK("exact quotient", ok); }
		EQ("order", p.find_order(), n - 1); CHECK("equal", p == p && (n == m || !(p == q))); t = p; t.coeff[n - 1] += 1; CHECK("leading coefficient counts", !(t == p)); for (double v : {1., -1., 2., 0.5}) { L e = 0; for (unsigned i = n; i-- > 0;) e = e * v + x[i]; NEAR("evaluation", p(v), e, 1e-12, 1e-9 * (v == 2 ? std::ldexp(1, n) : 10)); } CHECK("no error", errno == 0); samep("operand kept", p, x); samep("operand kept", q, y); vf::state(n * 1000 + m);
	}
	for (unsigned n = 0; n <= 16; ++n) if (vf::begin("from %u roots", n)) { std::vector<real> r; D e = {1}; for (unsigned i = 0; i < n; ++i) { real z = (int) (i % 5) - 2; r.push_back(z); D f(e.size() + 1, 0); for (size_t j = 0; j < e.size(); ++j) { f[j + 1] += e[j]; f[j] -= z * e[j]; } e = f; } samep("from roots", polynomial<real>::from_roots(r), e); }
}
SECTION(sz_poly_calculus) {
	for (unsigned n : vf::thorough() ? sizes(128, 256) : sizes(48, 64)) { if (!vf::begin("polynomial with %u coefficients", n)) continue; D x = pc(n, 0), de(n > 1 ? n - 1 : 1, 0), in(n + 1, 0); for (unsigned i = 1; i < n; ++i) de[i - 1] = x[i] * i; for (unsigned i = 0; i < n; ++i) in[i + 1] = x[i] / (i + 1); const polynomial<real> p = pol(x); samep("derivative", deriv(p), de); polynomial<real> q = integral(p); bool ok = q.size() >= n + 1; for (unsigned i = 0; ok && i <= n; ++i) ok = std::fabs(q[i] - in[i]) <= 1e-15 * std::fabs(in[i]); CHECK("antiderivative", ok); for (real v : {1., -1., 0.5}) { L e = 0; for (unsigned i = n; i-- > 1;) e = e * v + i * (L) x[i]; NEAR("pointwise derivative", deriv(p, v), e, 1e-12, 1e-9); } L s = 0; for (unsigned i = 0; i < n; ++i) s += x[i] * (1 - powl(-0.5L, i + 1)) / (i + 1); NEAR("definite integral", integral(p, -0.5, 1), s, 1e-12, 1e-11); samep("kept", p, x); vf::state(n); }
}
#endif
#if !defined(SZ) || SZ == 9
// ---- I01, I02 -----------------------------------------------------------------------------------
SECTION(sz_interp) {
	for (unsigned n = 1; n <= 13; ++n) for (int o = 0; o < 3; ++o) { if (!vf::begin("Lagrange polynomial of %u points, order %d", n, o)) continue; std::vector<vec<real, 2>> pts; double mx = 1; for (unsigned i = 0; i < n; ++i) { unsigned j = o == 0 ? i : o == 1 ? n - 1 - i : (i * (n % 5 ? 5 : n % 7 ? 7 : 1)) % n; real x = -1 + 2.0 * (j + 0.5) / n; pts.push_back({x, el(j, 0)}); mx = std::max(mx, std::fabs(el(j, 0))); } errno = 0; polynomial<real> p = lagrange_polynomial(pts); CHECK("degree", p.find_order() < n && errno == 0); for (auto& q : pts) NEAR("passes through its points", p(q[0]), q[1], 0, mx * 1e-16 * std::pow(6.0, n) + 1e-12); vf::state(n); }
	for (unsigned n = 0; n <= 14; ++n) { if (!vf::begin("interpolation of order %u", n)) continue; static unsigned dg; for (dg = 0; dg <= n; ++dg) { real_function f = [](real x) -> real { real s = 0; for (unsigned i = 0; i <= dg; ++i) s = s * x + ((int) (i % 3) - 1 + (i == 0)); return s; }; errno = 0; auto g = interpolate_grid(f, -1, 1, n), c = interpolate_chebyshev(f, -1, 1, n); for (real x : {-1., -0.7, -0.1, 0.33, 0.9, 1.}) { NEAR("grid", g(x), f(x), 0, 1e-13 * std::pow(3.0, n)); NEAR("Chebyshev", c(x), f(x), 0, 1e-13 * std::pow(3.0, n)); } CHECK("no error", errno == 0); } }
	for (unsigned n = 1; n <= 60; ++n) if (vf::begin("%u Chebyshev nodes", n)) { auto v = chebyshev_nodes<vec<real>>(-2, 3, n); EQ("count", (unsigned) v.size(), n); std::vector<double> a, b; for (unsigned i = 0; i < n && i < v.size(); ++i) { a.push_back(v[i]); b.push_back(0.5 + 2.5 * std::cos((2 * i + 1) * M_PI / (2 * n))); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); for (unsigned i = 0; i < a.size(); ++i) NEAR("node", a[i], b[i], 0, 1e-12); }
}
SECTION(sz_spline) {
	for (unsigned n : vf::thorough() ? sizes(300, 1024) : sizes(90, 128)) { if (n < 2 || !vf::begin("spline of %u points", n)) continue; vec<real> X(n), Y(n); std::vector<vec<real, 2>> P; real x = -3; for (unsigned i = 0; i < n; ++i) { X[i] = x; Y[i] = el(i, 0) / 8; P.push_back({x, Y[i]}); x += i % 3 == 0 ? 0.5 : i % 3 == 1 ? 1 : 2.25; } errno = 0; spline s(X, Y), t(P); double e = 1e-9; for (unsigned i = 0; i < n; ++i) { NEAR("interpolates", s(X[i]), Y[i], 0, e); NEAR("interpolates", t(X[i]), Y[i], 0, e); }
		// the natural spline by its tridiagonal equations in long double
		std::vector<L> h(n), M(n, 0), cp(n, 0), dp(n, 0); for (unsigned i = 0; i + 1 < n; ++i) h[i] = (L) X[i + 1] - X[i]; for (unsigned i = 1; i + 1 < n; ++i) { L a = h[i - 1], b = 2 * (h[i - 1] + h[i]), c = h[i], d = 6 * (((L) Y[i + 1] - Y[i]) / h[i] - ((L) Y[i] - Y[i - 1]) / h[i - 1]); L w = b - a * cp[i - 1]; cp[i] = c / w; dp[i] = (d - a * dp[i - 1]) / w; } for (unsigned i = n - 1; i-- > 1;) M[i] = dp[i] - cp[i] * M[i + 1];
		for (unsigned i = 0; i + 1 < n; ++i) for (L u : {0.0L, 0.25L, 0.5L, 0.875L}) { L z = (L) X[i] + u * h[i], a = 1 - u, b = u, w = a * Y[i] + b * Y[i + 1] + ((a * a * a - a) * M[i] + (b * b * b - b) * M[i + 1]) * h[i] * h[i] / 6, dw = ((L) Y[i + 1] - Y[i]) / h[i] + h[i] / 6 * ((3 * b * b - 1) * M[i + 1] - (3 * a * a - 1) * M[i]); NEAR("natural spline", s((real) z), w, 1e-9, 1e-8); NEAR("natural spline of points", t((real) z), w, 1e-9, 1e-8); NEAR("derivative", s.deriv((real) z), dw, 1e-9, 1e-8); NEAR("derivative of points", t.deriv((real) z), dw, 1e-9, 1e-8); } CHECK("no error", errno == 0); vf::state(n); }
	for (unsigned n = 2; n <= 24; ++n) if (vf::begin("Bezier curve of %u points", n)) { std::vector<vec<real, 2>> p; for (unsigned i = 0; i < n; ++i) p.push_back({el(i, 0), el(i, 1)}); for (L t : {0.0L, 0.25L, 0.5L, 0.75L, 1.0L}) { L a = 0, b = 0, c = 1; for (unsigned i = 0; i < n; ++i) { L w = c * powl(t, i) * powl(1 - t, n - 1 - i); a += w * p[i][0]; b += w * p[i][1]; c = c * (n - 1 - i) / (i + 1); } auto v = bezier(p, (real) t); NEAR("Bernstein form", v[0], a, 1e-11, 1e-11); NEAR("Bernstein form", v[1], b, 1e-11, 1e-11); } EQ("points kept", p[n - 1][0], el(n - 1, 0)); }
}
#endif
#if !defined(SZ) || SZ == 10
// ---- S01, S03, S06 ------------------------------------------------------------------------------
template<class W> static void stat(unsigned n, const char* ty) {
	if (!vf::begin("%s of %u values", ty, n)) return;
	W a = mk<W>(n, 0), b = mk<W>(n, 1); L ma = 0, mb = 0, aa = 0, bb = 0, ab = 0, ad = 0, m3 = 0, m4 = 0, mn = el(0, 0), mx = mn, pp = 0, pr = 0; for (unsigned i = 0; i < n; ++i) { ma += el(i, 0); mb += el(i, 1); mn = std::min(mn, (L) el(i, 0)); mx = std::max(mx, (L) el(i, 0)); pp += (L) el(i, 1) * el(i, 1); pr += powl(el(i, 1) / el(i, 2), 2); } ma /= n; mb /= n; for (unsigned i = 0; i < n; ++i) { L x = el(i, 0) - ma, y = el(i, 1) - mb; aa += x * x; bb += y * y; ab += x * y; ad += fabsl(x); }
	errno = 0; double r = 1e-11, t = 1e-9; NEAR("mean", stats::mean(a), ma, r, t); NEAR("range", stats::range(a), mx - mn, r, 0); NEAR("semidispersion", stats::semidispersion(a), (mx - mn) / 2, r, 0); NEAR("propagated sum", stats::propagate_sum(b), sqrtl(pp), r, 0); NEAR("propagated product", stats::propagate_product(b, mk<W>(n, 2)), sqrtl(pr), 1e-10, 0); NEAR("total sum of squares", stats::total_sum_squares(a), aa, r, t);
	if (n > 1) { L sd = sqrtl(aa / (n - 1)); for (unsigned i = 0; i < n; ++i) { L x = (el(i, 0) - ma) / sd; m3 += x * x * x; m4 += x * x * x * x; } NEAR("variance", stats::variance(a), aa / (n - 1), r, t); NEAR("variance", stats::variance(a, 0), aa / n, r, t); NEAR("standard deviation", stats::stdev(a), sd, r, t); NEAR("deviation of the mean", stats::stdom(a), sd / sqrtl(n), r, t); NEAR("covariance", stats::covariance(a, b), ab / (n - 1), r, t); NEAR("correlation", stats::correlation_coefficient(a, b), ab / sqrtl(aa * bb), 1e-9, t); NEAR("absolute deviation", stats::absolute_deviation(a), ad / n, r, t); NEAR("skewness", stats::skewness(a), m3 / n, 1e-9, 1e-9); NEAR("kurtosis", stats::kurtosis(a), m4 / n - 3, 1e-9, 1e-9); real m, v; stats::moments2(a, m, v); NEAR("running mean", m, ma, r, t); NEAR("running variance", v, aa / (n - 1), r, t); W z = stats::normalize_z_score(a); for (unsigned i = 0; i < n; ++i) NEAR("z-score", z[i], (el(i, 0) - ma) / sd, 1e-9, 1e-9);
		for (unsigned l : {1u, 2u, n / 2, n - 1}) if (l >= 1 && l < n) { L s = 0; for (unsigned i = l; i < n; ++i) s += ((L) el(i, 0) - ma) * ((L) el(i - l, 0) - ma); NEAR("autocorrelation", stats::autocorrelation(a, l), s / aa, 1e-9, 1e-9); } }
	CHECK("no error", errno == 0); same("data kept", a, dm(n, 0)); vf::state(n);
}
SECTION(sz_stats) { for (unsigned n : sizes(vf::thorough() ? 160 : 90, 128)) { stat<vec<real>>(n, "dataset"); stat<std::vector<real>>(n, "std::vector"); } }
SECTION(sz_regression) {
	for (unsigned n : sizes(vf::thorough() ? 300 : 100, vf::thorough() ? 2048 : 512)) { if (n < 3 || !vf::begin("fit of %u points", n)) continue; vec<real> X(n), Y(n), E(n); for (unsigned i = 0; i < n; ++i) { X[i] = (n % 7 ? (i * 7) % n : i) * 0.25 - 3; Y[i] = 2 - 0.5 * X[i] + el(i, 0) / 16; E[i] = 0.5 + (i % 5) * 0.25; }
		auto fit = [&](bool w, L& A, L& B, L& vA, L& vB, L& chi) { L S = 0, Sx = 0, Sy = 0, Sxx = 0, Sxy = 0; for (unsigned i = 0; i < n; ++i) { L q = w ? 1 / ((L) E[i] * E[i]) : 1; S += q; Sx += q * X[i]; Sy += q * Y[i]; Sxx += q * X[i] * X[i]; Sxy += q * (L) X[i] * Y[i]; } L d = S * Sxx - Sx * Sx; A = (Sxx * Sy - Sx * Sxy) / d; B = (S * Sxy - Sx * Sy) / d; vA = Sxx / d; vB = S / d; chi = 0; for (unsigned i = 0; i < n; ++i) { L q = w ? 1 / ((L) E[i] * E[i]) : 1; chi += q * powl(Y[i] - A - B * X[i], 2); } };
		L A, B, vA, vB, chi; fit(false, A, B, vA, vB, chi); double r = 1e-9, t = 1e-9; errno = 0; regression::linear_model m(X, Y); NEAR("intercept", m.A, A, r, t); NEAR("slope", m.B, B, r, t); NEAR("error", m.err, sqrtl(chi / (n - 2)), r, t); NEAR("ndf", m.ndf, n - 2, 0, 0); NEAR("prediction", m(1.5), A + 1.5L * B, r, t); NEAR("intercept", regression::ols_linear_intercept(X, Y), A, r, t); NEAR("slope", regression::ols_linear_slope(X, Y), B, r, t); real a, b; regression::ols_linear(X, Y, a, b); NEAR("intercept", a, A, r, t); NEAR("slope", b, B, r, t); regression::linear_model k(X, Y, 0.5); NEAR("sigma A", k.sigma_A, 0.5L * sqrtl(vA), r, t); NEAR("sigma B", k.sigma_B, 0.5L * sqrtl(vB), r, t); NEAR("chi squared", k.chi_squared, chi * 4, r, t);
		NEAR("chi_square_linear", stats::chi_square_linear(X, Y, E, (real) A, (real) B), [&] { L s = 0; for (unsigned i = 0; i < n; ++i) s += powl((Y[i] - A - B * X[i]) / E[i], 2); return s; }(), 1e-9, 1e-9);
		fit(true, A, B, vA, vB, chi); regression::linear_model w(X, Y, E); NEAR("weighted intercept", w.A, A, r, t); NEAR("weighted slope", w.B, B, r, t); NEAR("weighted sigma A", w.sigma_A, sqrtl(vA), r, t); NEAR("weighted sigma B", w.sigma_B, sqrtl(vB), r, t); NEAR("weighted chi squared", w.chi_squared, chi, 1e-8, t); vec<real> Q(n); for (unsigned i = 0; i < n; ++i) Q[i] = 1 / (E[i] * E[i]); NEAR("weighted slope", regression::wls_linear_slope(X, Y, Q), B, r, t); NEAR("weighted intercept", regression::wls_linear_intercept(X, Y, Q), A, r, t);
		L xy = 0, xx = 0; for (unsigned i = 0; i < n; ++i) { xy += (L) X[i] * Y[i]; xx += (L) X[i] * X[i]; } real bo, so; regression::ols_linear_orig(X, Y, 0.5, bo, so); NEAR("slope through the origin", bo, xy / xx, r, t); NEAR("its error", so, 0.5L / sqrtl(xx), r, t); CHECK("no error", errno == 0); vf::state(n); }
}
template<unsigned N> static void prop() {
	if (!vf::begin("propagation through %u variables", N)) return;
	vec<real, N> x, sg; mat<real, N, N> cm; T c = tab(N, N, 2); L w = 0, wi = 0; for (unsigned i = 0; i < N; ++i) { x[i] = el(i, 0) / 8; sg[i] = 0.25 + (i % 3); } for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) cm(i, j) = i == j ? 50 : (c.at(i, j) + c.at(j, i)) / 64; for (unsigned i = 0; i < N; ++i) { L gi = 2 * (i + 1) * (L) x[i]; wi += gi * gi * sg[i] * sg[i]; for (unsigned j = 0; j < N; ++j) w += gi * 2 * (j + 1) * (L) x[j] * cm(i, j); }
	errno = 0; NEAR("independent errors", (stats::error_propagation<N>(sq<N>, x, sg)), sqrtl(wi), 1e-10, 0); NEAR("covariance", (stats::error_propagation<N>(sq<N>, x, cm)), sqrtl(w), 1e-10, 0); CHECK("no error", errno == 0);
}
SECTION(sz_propagation) { prop<1>(); prop<2>(); prop<3>(); prop<4>(); prop<5>(); prop<6>(); prop<8>(); prop<9>(); prop<12>(); prop<16>(); prop<17>();
	for (unsigned n : {1u, 2u, 3u, 5u, 8u, 9u, 12u}) for (unsigned len : sizes(40, 64)) if (len > 1 && vf::begin("covariance of %u datasets of %u", n, len)) { std::vector<vec<real>> v; for (unsigned k = 0; k < n; ++k) { vec<real> q(len); for (unsigned i = 0; i < len; ++i) q[i] = el(i * (k + 1) + k, k % 2); v.push_back(q); } errno = 0; mat<real> c = stats::covar_mat<mat<real>>(v); CHECK("shape", c.rows() == n && c.cols() == n); if (c.rows() != n || c.cols() != n) continue; for (unsigned a = 0; a < n; ++a) for (unsigned b = 0; b < n; ++b) { L ma = 0, mb = 0, s = 0; for (unsigned i = 0; i < len; ++i) { ma += v[a][i]; mb += v[b][i]; } ma /= len; mb /= len; for (unsigned i = 0; i < len; ++i) s += (v[a][i] - ma) * (v[b][i] - mb); NEAR("covariance matrix", c(a, b), s / (len - 1), 1e-10, 1e-9); } CHECK("no error", errno == 0); }
}
#endif
#if !defined(SZ) || SZ == 11
// ---- D03, D04 -----------------------------------------------------------------------------------
template<unsigned N> static void grads() {
	if (!vf::begin("gradient in %u variables", N)) return;
	vec<real, N> x; for (unsigned i = 0; i < N; ++i) x[i] = el(i, 0) / 4 + 0.125; errno = 0; auto g = autodiff::gradient(sq<N>, x); for (unsigned i = 0; i < N; ++i) NEAR("gradient", g[i], 2 * (i + 1) * x[i], 1e-13, 0);
	auto a = multidual<N>::make_argument(x); for (unsigned i = 0; i < N; ++i) { EQ("argument", a[i].Re(), x[i]); for (unsigned j = 0; j < N; ++j) EQ("seed", a[i].Dual()[j], i == j ? 1.0 : 0.0); }
	// product and quotient of all the variables
	multidual<N> p(1.0); L v = 1; for (unsigned i = 0; i < N; ++i) { if (i % 2) p /= a[i]; else p *= a[i]; v = i % 2 ? v / x[i] : v * x[i]; } NEAR("product", p.Re(), v, 1e-12, 0); for (unsigned i = 0; i < N; ++i) NEAR("logarithmic derivative", p.Dual()[i], (i % 2 ? -v : v) / x[i], 1e-12, 0);
	// dynamic
	vec<real> y(N); for (unsigned i = 0; i < N; ++i) y[i] = x[i]; auto b = multidual<0>::make_argument(y); multidual<0> q = b[0]; for (unsigned i = 1; i < N; ++i) { if (i % 2) q = q / b[i]; else q = q * b[i]; } NEAR("dynamic product", q.Re(), v, 1e-12, 0); for (unsigned i = 0; i < N; ++i) NEAR("dynamic derivative", q.Dual()[i], (i % 2 ? -v : v) / x[i], 1e-12, 0);
	for (int op = 0; op < 4; ++op) { auto s = op == 0 ? sin(a[N - 1]) : op == 1 ? exp(a[N - 1]) : op == 2 ? square(a[N - 1]) : cos(a[N - 1]); L z = x[N - 1], w = op == 0 ? cosl(z) : op == 1 ? expl(z) : op == 2 ? 2 * z : -sinl(z); for (unsigned i = 0; i < N; ++i) NEAR("function", s.Dual()[i], i + 1 == N ? w : 0, 1e-8, 0); }
	CHECK("no error", errno == 0);
}
template<unsigned... N> static void gradall(std::integer_sequence<unsigned, N...>) { (grads<N + 1>(), ...); }
SECTION(sz_gradient) { gradall(std::make_integer_sequence<unsigned, 20>()); grads<33>(); }
template<unsigned N> static vec<multidual<N>, N> fld(vec<multidual<N>, N> x) { vec<multidual<N>, N> r; for (unsigned i = 0; i < N; ++i) r[i] = x[i] * x[(i + 1) % N] * multidual<N>((real) (i + 1)) + x[(i + N - 1) % N]; return r; }
template<unsigned N> static void ops() {
	if (!vf::begin("field of %u variables", N)) return;
	vec<real, N> x; for (unsigned i = 0; i < N; ++i) x[i] = el(i, 0) / 4 + 0.125; T j{N, N, D(N * N, 0)}; for (unsigned i = 0; i < N; ++i) { j.at(i, i) += (i + 1) * x[(i + 1) % N]; j.at(i, (i + 1) % N) += (i + 1) * x[i]; j.at(i, (i + N - 1) % N) += 1; } auto J = autodiff::jacobian<N, N>(fld<N>, x); for (unsigned i = 0; i < N; ++i) for (unsigned k = 0; k < N; ++k) NEAR("Jacobian", J(i, k), j.at(i, k), 1e-12, 1e-12); double lap = 0; for (unsigned i = 0; i < N; ++i) lap += 2 * (i + 1); (void) lap;
}
SECTION(sz_fields) { ops<3>(); ops<4>(); ops<5>(); ops<8>(); ops<9>(); ops<12>(); ops<17>(); }
#endif
VF_MAIN
