// Norms, distances and transformation matrices.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
using namespace theoretica::algebra;
typedef long double L;
typedef std::vector<real> V;
template<typename T> static T mkv(const V& v) { T r; r.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
static L norm_ref(const V& v, int p) { L s = 0; if (p == 0) { for (real x : v) s = std::max<L>(s, fabsl(x)); return s; } for (real x : v) s += powl(fabsl((L) x), p); return powl(s, 1.0L / p); }
static V dif(const V& a, const V& b) { V r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] - b[i]); return r; }
template<typename T> static void pair(const V& a, const V& b, const char* kind) {
	if (!vf::begin("%s distance %s %s", kind, show(a).c_str(), show(b).c_str())) return;
	T x = mkv<T>(a), y = mkv<T>(b); V d = dif(a, b); errno = 0; const double t = 1e-13;
	NEAR("l1 norm", l1_norm(x), norm_ref(a, 1), t, 0); NEAR("l2 norm", l2_norm(x), norm_ref(a, 2), t, 0); NEAR("linf norm", linf_norm(x), norm_ref(a, 0), t, 0);
	for (unsigned p = 1; p <= 12; ++p) { NEAR("lp norm", lp_norm(x, p), norm_ref(a, p), 1e-8, 1e-8); NEAR("Minkowski", minkowski_distance(x, y, p), norm_ref(d, p), 1e-8, 1e-8); }
	NEAR("Euclid", euclidean_distance(x, y), norm_ref(d, 2), t, 0); NEAR("distance", algebra::distance(x, y), norm_ref(d, 2), t, 0); NEAR("Manhattan", manhattan_distance(x, y), norm_ref(d, 1), t, 0); NEAR("Chebyshev", chebyshev_distance(x, y), norm_ref(d, 0), t, 0);
	int h = 0; L can = 0, dot = 0, na = 0, nb = 0; for (size_t i = 0; i < a.size(); ++i) { h += a[i] != b[i]; if (a[i] != b[i]) can += fabsl((L) a[i] - b[i]) / (fabsl((L) a[i]) + fabsl((L) b[i])); dot += (L) a[i] * b[i]; na += (L) a[i] * a[i]; nb += (L) b[i] * b[i]; }
	EQ("Hamming", hamming_distance(x, y), h); EQ("discrete", discrete_distance(x, y), h ? 1 : 0); NEAR("Canberra", canberra_distance(x, y), can, t, 0); if (na * nb > 0) NEAR("cosine", cosine_distance(x, y), dot / sqrtl(na * nb), 1e-12, 1e-13);
	int h2 = 0; for (size_t i = 0; i < a.size(); ++i) h2 += std::fabs(d[i]) > 1.5; EQ("Hamming to tolerance", hamming_distance(x, y, 1.5), h2); EQ("discrete to tolerance", discrete_distance(x, y, 1.5), h2 ? 1 : 0);
	EQ("symmetric", (real) euclidean_distance(x, y), (real) euclidean_distance(y, x)); CHECK("no error", errno == 0);
	for (size_t i = 0; i < a.size(); ++i) CHECK("arguments kept", x[i] == a[i] && y[i] == b[i]);
}
static const V AL = {-3, 0, 0.5, 2};
SECTION(dist_pairs) { for (unsigned n = 1; n <= 3; ++n) words<real>(n == 3 ? V{-3, 0, 2} : AL, n, [&](const V& a) { words<real>(n == 3 ? V{-3, 0, 2} : AL, n, [&](const V& b) { pair<vec<real>>(a, b, "dynamic"); if (n == 1) pair<vec<real, 1>>(a, b, "static"); if (n == 2) pair<vec<real, 2>>(a, b, "static"); if (n == 3) pair<vec<real, 3>>(a, b, "static"); }); });
	if (vf::thorough()) words<real>({-3, 0, 0.5, 2}, 4, [&](const V& a) { words<real>({-3, 0, 0.5, 2}, 4, [&](const V& b) { pair<vec<real>>(a, b, "dynamic"); }); }); }
SECTION(dist_triangle) { words<real>(AL, 2, [&](const V& a) { words<real>(AL, 2, [&](const V& b) { words<real>(AL, 2, [&](const V& c) { if (!vf::begin("triangle %s %s %s", show(a).c_str(), show(b).c_str(), show(c).c_str())) return; auto x = mkv<vec<real, 2>>(a), y = mkv<vec<real, 2>>(b), z = mkv<vec<real, 2>>(c);
	#define TRI(f) CHECK("triangle inequality " #f, f(x, z) <= f(x, y) + f(y, z) + 1e-9)
	TRI(euclidean_distance); TRI(manhattan_distance); TRI(chebyshev_distance); TRI(discrete_distance); TRI(hamming_distance); TRI(canberra_distance); CHECK("triangle inequality minkowski", minkowski_distance(x, z, 3) <= minkowski_distance(x, y, 3) + minkowski_distance(y, z, 3) + 1e-7); }); }); }); }
SECTION(dist_sizes) { for (unsigned n = 1; n <= 4; ++n) for (unsigned m = 1; m <= 4; ++m) if (n != m && vf::begin("sizes %u %u", n, m)) { vec<real> x = mkv<vec<real>>(V(n, 1)), y = mkv<vec<real>>(V(m, 2)); vec<complex<>> cx, cy; cx.resize(n); cy.resize(m);
	#define BAD(e) do { errno = 0; real r_ = e; ISNAN("mismatched sizes " #e, r_); CHECK("mismatch reported " #e, errno == EINVAL); } while (0)
	BAD(euclidean_distance(x, y)); BAD(minkowski_distance(x, y, 2)); BAD(manhattan_distance(x, y)); BAD(chebyshev_distance(x, y)); BAD(discrete_distance(x, y)); BAD(hamming_distance(x, y)); BAD(canberra_distance(x, y)); BAD(cosine_distance(x, y)); BAD(hermitian_distance(cx, cy).Re()); BAD(algebra::distance(x, y)); } }
SECTION(dist_scalar) { for (real a : {-3., -0.5, 0., 2., 1e6}) for (real b : {-3., 0., 0.25, 7.}) { if (!vf::begin("scalar %g %g", a, b)) continue; L d = fabsl((L) a - b); NEAR("Euclid", euclidean_distance(a, b), d, 0, 0); NEAR("distance", algebra::distance(a, b), d, 0, 0); for (unsigned p = 1; p <= 4; ++p) if (d < 1000) NEAR("Minkowski", minkowski_distance(a, b, p), d, 1e-8, 1e-8);
	for (real c : {-1., 0., 4.}) for (real e : {0., 3.}) { complex<> z(a, c), w(b, e); L m = hypotl((L) a - b, (L) c - e); complex<> r = algebra::distance(z, w); NEAR("complex distance", r.Re(), m, 1e-13, 0); NEAR("complex distance is real", r.Im(), 0, 0, 0); } } }
SECTION(dist_complex) { V al = {-2, 0, 1}; words<real>(al, 4, [&](const V& a) { words<real>(al, 4, [&](const V& b) { if (!vf::begin("complex vectors %s %s", show(a).c_str(), show(b).c_str())) return; vec<complex<>, 2> x, y; for (int i = 0; i < 2; ++i) { x[i] = complex<>(a[2 * i], a[2 * i + 1]); y[i] = complex<>(b[2 * i], b[2 * i + 1]); } L s = 0; for (int i = 0; i < 4; ++i) s += ((L) a[i] - b[i]) * ((L) a[i] - b[i]); s = sqrtl(s); errno = 0; complex<> h = hermitian_distance(x, y), d = algebra::distance(x, y); NEAR("Hermitian", h.Re(), s, 1e-12, 1e-12); NEAR("Hermitian is real", h.Im(), 0, 0, 1e-12); NEAR("distance", d.Re(), s, 1e-12, 1e-12); CHECK("no error", errno == 0);
	L m[2], q[2]; for (int i = 0; i < 2; ++i) { m[i] = hypotl(a[2 * i], a[2 * i + 1]); q[i] = hypotl((L) a[2 * i] - b[2 * i], (L) a[2 * i + 1] - b[2 * i + 1]); } NEAR("l1 norm", l1_norm(x), m[0] + m[1], 1e-12, 0); NEAR("l2 norm", l2_norm(x), hypotl(m[0], m[1]), 1e-12, 1e-12); NEAR("linf norm", linf_norm(x), std::max(m[0], m[1]), 1e-12, 0); for (unsigned p = 1; p <= 4; ++p) { NEAR("lp norm", lp_norm(x, p), powl(powl(m[0], p) + powl(m[1], p), 1.0L / p), 1e-8, 1e-8); NEAR("Minkowski", minkowski_distance(x, y, p), powl(powl(q[0], p) + powl(q[1], p), 1.0L / p), 1e-8, 1e-8); }
	NEAR("Euclid", euclidean_distance(x, y), s, 1e-12, 1e-12); NEAR("Manhattan", manhattan_distance(x, y), q[0] + q[1], 1e-12, 0); NEAR("Chebyshev", chebyshev_distance(x, y), std::max(q[0], q[1]), 1e-12, 0); EQ("Hamming", (int) hamming_distance(x, y), (q[0] > 0) + (q[1] > 0)); EQ("discrete", (int) discrete_distance(x, y), q[0] > 0 || q[1] > 0); L c = 0; for (int i = 0; i < 2; ++i) if (q[i] > 0) c += q[i] / (m[i] + hypotl(b[2 * i], b[2 * i + 1])); NEAR("Canberra", canberra_distance(x, y), c, 1e-12, 0); CHECK("no error", errno == 0); }); }); }
// distances compared with a caller's tolerance: every element and every tolerance of a grid
SECTION(dist_tolerance) { for (int e = -40; e <= 40; ++e) for (int f = -40; f <= 40; ++f) for (unsigned n : {1u, 2u, 5u}) { if (!vf::begin("%u elements at 2^%d to 2^%d", n, e, f)) continue; vec<real> x(n, 1.0), y(n, 1.0); x[n - 1] = 0; y[n - 1] = std::ldexp(1.0, e); real tol = std::ldexp(1.0, f); errno = 0; bool far = e > f; EQ("Hamming", (int) hamming_distance(x, y, tol), (int) far); EQ("discrete", (int) discrete_distance(x, y, tol), (int) far); EQ("Hamming swapped", (int) hamming_distance(y, x, tol), (int) far); EQ("discrete swapped", (int) discrete_distance(y, x, tol), (int) far); CHECK("no error", errno == 0); } }
// ---- A08 ----------------------------------------------------------------------------------------
static std::vector<L> apply(const std::vector<std::vector<L>>& m, const std::vector<L>& v, bool row) { size_t n = v.size(); std::vector<L> r(n, 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r[i] += (row ? m[j][i] : m[i][j]) * v[j]; return r; }
template<typename M> static std::vector<std::vector<L>> tab(const M& m) { std::vector<std::vector<L>> r(m.rows(), std::vector<L>(m.cols())); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[i].size(); ++j) r[i][j] = m(i, j); return r; }
template<typename M> static bool allnan(const M& m) { for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) if (i == j ? m(i, j) == m(i, j) : false) return false; return true; }
// a rotation about axis u by angle t on the leading 3x3 block, identity elsewhere
template<typename M> static void rot3(const char* tag, const M& m, const L* u, L t, unsigned rows, unsigned cols) {
	EQ("rows", m.rows(), rows); EQ("cols", m.cols(), cols); L c = cosl(t), s = sinl(t);
	for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) { L w; if (i < 3 && j < 3) { w = (1 - c) * u[i] * u[j] + (i == j ? c : 0); if (i != j) { unsigned k = 3 - i - j; w += ((j == (i + 1) % 3) ? -s : s) * u[k]; } } else w = i == j; NEAR(tag, m(i, j), w, 0, 1e-13); }
}
static const V ANG = {0, 0.1, -0.7, 1.5707963267948966, 2, 3.141592653589793, -3, 4.5, 7};
SECTION(tr_rotation) {
	words<real>({-1, 0, 2}, 3, [&](const V& a) { if (a[0] == 0 && a[1] == 0 && a[2] == 0) return; L n = sqrtl((L) a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); vec<real, 3> x; L u[3]; for (int i = 0; i < 3; ++i) { x[i] = a[i] / n; u[i] = x[i]; } vec<real> xd; xd.resize(3); for (int i = 0; i < 3; ++i) xd[i] = x[i];
		for (real t : ANG) { if (!vf::begin("rotation by %g about %s", t, show(a).c_str())) continue; errno = 0; rot3("rotation_3d 3x3", rotation_3d<mat<real, 3, 3>>(t, x), u, t, 3, 3); rot3("rotation_3d 4x4", rotation_3d<mat<real, 4, 4>>(t, x), u, t, 4, 4); for (unsigned k = 3; k <= 5; ++k) rot3("rotation_3d dynamic", rotation_3d<mat<real>>(t, xd, k, k), u, t, k, k); CHECK("no error", errno == 0); } });
	const L E[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
	for (real t : ANG) { if (!vf::begin("axis rotation by %g", t)) continue; errno = 0; rot3("x axis", rotation_3d_xaxis<mat<real, 3, 3>>(t), E[0], t, 3, 3); rot3("y axis", rotation_3d_yaxis<mat<real, 3, 3>>(t), E[1], t, 3, 3); rot3("z axis", rotation_3d_zaxis<mat<real, 3, 3>>(t), E[2], t, 3, 3); rot3("x axis", rotation_3d_xaxis<mat<real, 4, 4>>(t), E[0], t, 4, 4); rot3("y axis", rotation_3d_yaxis<mat<real, 4, 4>>(t), E[1], t, 4, 4); rot3("z axis", rotation_3d_zaxis<mat<real, 4, 4>>(t), E[2], t, 4, 4);
		for (unsigned k = 3; k <= 5; ++k) { rot3("x axis", rotation_3d_xaxis<mat<real>>(t, k, k), E[0], t, k, k); rot3("y axis", rotation_3d_yaxis<mat<real>>(t, k, k), E[1], t, k, k); rot3("z axis", rotation_3d_zaxis<mat<real>>(t, k, k), E[2], t, k, k); }
		auto two = [&](const char* tag, const auto& m, unsigned n) { EQ("rows", m.rows(), n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) NEAR(tag, m(i, j), i < 2 && j < 2 ? (i == j ? cosl(t) : i ? sinl(t) : -sinl(t)) : (L) (i == j), 0, 1e-13); };
		two("rotation_2d", rotation_2d<mat<real, 2, 2>>(t), 2); two("rotation_2d", rotation_2d<mat<real, 3, 3>>(t), 3); for (unsigned k = 2; k <= 4; ++k) two("rotation_2d", rotation_2d<mat<real>>(t, k, k), k); CHECK("no error", errno == 0); }
	#define REF(e) do { errno = 0; auto m_ = e; CHECK("too small refused " #e, allnan(m_)); CHECK("too small reported " #e, errno == EINVAL); } while (0)
	for (unsigned r = 1; r <= 4; ++r) for (unsigned c = 1; c <= 4; ++c) { if (!vf::begin("size %ux%u", r, c)) continue; vec<real, 3> x; x[0] = 1; vec<real> s; s.resize(2);
		if (r < 2 || c < 2) REF(rotation_2d<mat<real>>(1, r, c)); if (r < 3 || c < 3) { REF(rotation_3d<mat<real>>(1, x, r, c)); REF(rotation_3d_xaxis<mat<real>>(1, r, c)); REF(rotation_3d_yaxis<mat<real>>(1, r, c)); REF(rotation_3d_zaxis<mat<real>>(1, r, c)); } else REF(rotation_3d<mat<real>>(1, s, r, c));
		if (r < 4 || c < 4) { REF((perspective<mat<real>>(-1, 1, -1, 1, 1, 2, r, c))); REF((perspective_fov<mat<real>>(90, 1, 1, 2, r, c))); REF((ortho<mat<real>>(-1, 1, -1, 1, 1, 2, r, c))); }
		if (r != 3) REF((translation<mat<real>>(s, r, r))); if (r != 2 || c != 2) REF((diagonal<mat<real>>(s, r, c))); if (r != c || r % 2) REF(symplectic<mat<real>>(r, c)); }
	if (vf::begin("static sizes")) { REF((rotation_2d<mat<real, 1, 1>>(1))); REF((rotation_3d_xaxis<mat<real, 2, 2>>(1))); REF((rotation_3d_yaxis<mat<real, 2, 2>>(1))); REF((rotation_3d_zaxis<mat<real, 2, 2>>(1))); REF((symplectic<mat<real, 3, 3>>())); REF((symplectic<mat<real, 2, 4>>())); REF((perspective<mat<real, 3, 3>>(-1, 1, -1, 1, 1, 2))); REF((ortho<mat<real, 3, 3>>(-1, 1, -1, 1, 1, 2))); REF((perspective_fov<mat<real, 3, 3>>(60, 1, 1, 2))); }
}
SECTION(tr_build) {
	words_upto<real>({-2, 0, 3}, 1, 4, [&](const V& a) { if (!vf::begin("diagonal/translation %s", show(a).c_str())) return; unsigned n = a.size(); vec<real> v = mkv<vec<real>>(a); errno = 0;
		mat<real> d = diagonal<mat<real>>(v, n, n); EQ("rows", d.rows(), n); EQ("cols", d.cols(), n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) EQ("diagonal", (real) d(i, j), i == j ? a[i] : 0);
		mat<real> e(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) e(i, j) = 9; diagonal(e, v); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) EQ("diagonal in place", (real) e(i, j), i == j ? a[i] : 0);
		mat<real> t = translation<mat<real>>(v, n + 1, n + 1); for (unsigned i = 0; i <= n; ++i) for (unsigned j = 0; j <= n; ++j) EQ("translation", (real) t(i, j), i == j ? 1 : (j == n && i < n ? a[i] : 0));
		if (n == 3) { auto s = translation<mat<real, 4, 4>>(mkv<vec<real, 3>>(a)); for (unsigned i = 0; i < 4; ++i) for (unsigned j = 0; j < 4; ++j) EQ("translation", (real) s(i, j), i == j ? 1 : (j == 3 ? a[i] : 0)); auto g = diagonal<mat<real, 3, 3>>(mkv<vec<real, 3>>(a)); for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) EQ("diagonal", (real) g(i, j), i == j ? a[i] : 0); }
		CHECK("no error", errno == 0); });
	for (unsigned r = 1; r <= 6; ++r) for (unsigned c = 1; c <= 6; ++c) { if (!vf::begin("structured %ux%u", r, c)) continue; errno = 0; mat<real> I = identity<mat<real>>(r, c); EQ("rows", I.rows(), r); EQ("cols", I.cols(), c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) EQ("identity", (real) I(i, j), (real) (i == j));
		if (r == c) { mat<real> H = hilbert<mat<real>>(r); EQ("rows", H.rows(), r); EQ("cols", H.cols(), r); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < r; ++j) NEAR("Hilbert", H(i, j), 1.0L / (i + j + 1), 1e-15, 0); if (r % 2 == 0) { mat<real> J = symplectic<mat<real>>(r, r); EQ("rows", J.rows(), r); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < r; ++j) EQ("symplectic", (real) J(i, j), j == i + r / 2 ? 1 : i == j + r / 2 ? -1 : 0); } } CHECK("no error", errno == 0); }
	if (vf::begin("static structured")) { errno = 0; auto J = symplectic<mat<real, 4, 4>>(); for (unsigned i = 0; i < 4; ++i) for (unsigned j = 0; j < 4; ++j) EQ("symplectic", (real) J(i, j), j == i + 2 ? 1 : i == j + 2 ? -1 : 0); auto H = hilbert<mat<real, 3, 3>>(); NEAR("Hilbert", H(2, 1), 0.25, 0, 0); auto I = identity<mat<real, 2, 3>>(); for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 3; ++j) EQ("identity", (real) I(i, j), (real) (i == j)); CHECK("no error", errno == 0); }
	words<real>({-2, 0.5, 3}, 2, [&](const V& p) { words<real>({0, 1, -4}, 2, [&](const V& c) { for (real r : {0.5, 1., 3.}) { if (!vf::begin("sphere inversion of %s about %s radius %g", show(p).c_str(), show(c).c_str(), r)) continue; auto x = mkv<vec<real, 2>>(p), o = mkv<vec<real, 2>>(c); L dx = (L) p[0] - c[0], dy = (L) p[1] - c[1], q = dx * dx + dy * dy; auto y = sphere_inversion(x, o, r); NEAR("inversion", y[0], c[0] + dx * r * r / q, 1e-12, 1e-12); NEAR("inversion", y[1], c[1] + dy * r * r / q, 1e-12, 1e-12); auto z = sphere_inversion(y, o, r); NEAR("involution", z[0], p[0], 1e-10, 1e-10); NEAR("involution", z[1], p[1], 1e-10, 1e-10); if (c[0] == 0 && c[1] == 0) { auto w = sphere_inversion<vec<real, 2>, vec<real, 2>>(x); NEAR("default", w[0], p[0] / q, 1e-12, 1e-12); } } }); });
}
SECTION(tr_camera) {
	words<real>({-1, 0, 2}, 3, [&](const V& c) { words<real>({-2, 0, 1}, 3, [&](const V& t) { L f[3]; L n = 0; for (int i = 0; i < 3; ++i) { f[i] = (L) t[i] - c[i]; n += f[i] * f[i]; } if (n == 0) return; n = sqrtl(n); for (int k = 0; k < 3; ++k) { V u(3, 0); u[k] = k == 1 ? 1 : 2; L cr[3] = {f[1] * u[2] - f[2] * u[1], f[2] * u[0] - f[0] * u[2], f[0] * u[1] - f[1] * u[0]}; if (cr[0] == 0 && cr[1] == 0 && cr[2] == 0) continue;
		if (!vf::begin("look at %s from %s up axis %d", show(t).c_str(), show(c).c_str(), k)) continue; errno = 0; auto C = mkv<vec<real, 3>>(c), T = mkv<vec<real, 3>>(t), U = mkv<vec<real, 3>>(u); auto m = tab(look_at<mat<real, 4, 4>>(C, T, U)); auto at = [&](const V& p) { return apply(m, {p[0], p[1], p[2], 1}, false); };
		auto o = at(c), w = at(t); for (int i = 0; i < 3; ++i) NEAR("camera at the origin", o[i], 0, 0, 1e-12); NEAR("target on the axis", w[0], 0, 0, 1e-12); NEAR("target on the axis", w[1], 0, 0, 1e-12); NEAR("target in front", w[2], -n, 0, 1e-12); V cu(3); for (int i = 0; i < 3; ++i) cu[i] = c[i] + u[i]; auto y = at(cu); NEAR("up has no sideways component", y[0], 0, 0, 1e-12); CHECK("up points up", y[1] > 0);
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L s = 0; for (int q = 0; q < 3; ++q) s += m[i][q] * m[j][q]; NEAR("rigid", s, i == j, 0, 1e-12); } NEAR("affine", m[3][0], 0, 0, 0); NEAR("affine", m[3][3], 1, 0, 0); CHECK("no error", errno == 0); } }); });
	for (real l : {-2., -1.}) for (real r : {0.5, 3.}) for (real b : {-1., -0.25}) for (real t : {1., 2.}) for (real n : {0.5, 1.}) for (real f : {2., 10.}) { if (!vf::begin("projection %g %g %g %g %g %g", l, r, b, t, n, f)) continue; errno = 0;
		auto test = [&](const char* tag, const std::vector<std::vector<L>>& m, bool persp, L l, L r, L b, L t) { bool good[2] = {true, true}; for (int row = 0; row < 2; ++row) for (int c = 0; c < 8; ++c) { L z = c & 4 ? f : n, k = persp ? z / n : 1; std::vector<L> v = {(c & 1 ? r : l) * k, (c & 2 ? t : b) * k, -z, 1}, q = apply(m, v, row); L w[3] = {c & 1 ? 1.0L : -1, c & 2 ? 1.0L : -1, c & 4 ? 1.0L : -1}; if (!(q[3] > 0)) good[row] = false; for (int i = 0; i < 3; ++i) if (!(fabsl(q[i] / q[3] - w[i]) < 1e-9)) good[row] = false; } CHECK(tag, good[0] || good[1]); };
		if (true) { auto o = tab(ortho<mat<real, 4, 4>>(l, r, b, t, n, f)); o[3][3] = o[3][3]; vf::count("projections"); test("frustum corners map to the cube", tab(perspective<mat<real, 4, 4>>(l, r, b, t, n, f)), true, l, r, b, t); test("frustum corners map to the cube", tab(perspective<mat<real>>(l, r, b, t, n, f, 4, 4)), true, l, r, b, t); test("box corners map to the cube", o, false, l, r, b, t); test("box corners map to the cube", tab(ortho<mat<real>>(l, r, b, t, n, f, 4, 4)), false, l, r, b, t); }
		for (real fov : {30., 90.}) for (real as : {1., 1.5}) { L h = n * tanl(fov * M_PIl / 360), w = h * as; test("field of view", tab(perspective_fov<mat<real, 4, 4>>(fov, as, n, f)), true, -w, w, -h, h); test("field of view", tab(perspective_fov<mat<real>>(fov, as, n, f, 4, 4)), true, -w, w, -h, h); } CHECK("no error", errno == 0); }
}
SECTION(tr_wide) { // many angles, rectangular and larger shapes, other units
	const L E[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
	for (int k = -400; k <= 400; k += vf::thorough() ? 1 : 5) { real t = k * 0.0625; if (!vf::begin("rotations by %g", t)) continue; errno = 0; vec<real, 3> u = {2. / 3, -1. / 3, 2. / 3}; L w[3] = {u[0], u[1], u[2]}; rot3("rotation_3d", rotation_3d<mat<real, 3, 3>>(t, u), w, t, 3, 3); rot3("rotation_3d dynamic", rotation_3d<mat<real>>(t, u, 4, 4), w, t, 4, 4); rot3("x axis", rotation_3d_xaxis<mat<real, 3, 3>>(t), E[0], t, 3, 3); rot3("y axis", rotation_3d_yaxis<mat<real, 3, 3>>(t), E[1], t, 3, 3); rot3("z axis", rotation_3d_zaxis<mat<real, 4, 4>>(t), E[2], t, 4, 4); auto m = rotation_2d<mat<real, 2, 2>>(t); NEAR("rotation_2d", m(0, 0), cosl(t), 0, 1e-13); NEAR("rotation_2d", m(1, 1), cosl(t), 0, 1e-13); NEAR("rotation_2d", m(1, 0), sinl(t), 0, 1e-13); NEAR("rotation_2d", m(0, 1), -sinl(t), 0, 1e-13); CHECK("no error", errno == 0); vf::state(k); }
	for (unsigned r = 3; r <= 9; ++r) for (unsigned c = 3; c <= 9; ++c) for (real t : {-0.7, 2.}) if (vf::begin("rotations by %g in %ux%u", t, r, c)) { errno = 0; vec<real, 3> u = {0.6, 0, -0.8}; L w[3] = {u[0], u[1], u[2]}; rot3("rotation_3d", rotation_3d<mat<real>>(t, u, r, c), w, t, r, c); rot3("x axis", rotation_3d_xaxis<mat<real>>(t, r, c), E[0], t, r, c); rot3("y axis", rotation_3d_yaxis<mat<real>>(t, r, c), E[1], t, r, c); rot3("z axis", rotation_3d_zaxis<mat<real>>(t, r, c), E[2], t, r, c); auto m = rotation_2d<mat<real>>(t, r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) NEAR("rotation_2d", m(i, j), i < 2 && j < 2 ? (i == j ? cosl(t) : i ? sinl(t) : -sinl(t)) : (L) (i == j), 0, 1e-13); CHECK("no error", errno == 0); }
	for (unsigned n = 1; n <= 40; ++n) if (vf::begin("structured matrices of order %u", n)) { errno = 0; vec<real> v(n); for (unsigned i = 0; i < n; ++i) v[i] = (int) ((i * 7) % 11) - 5; auto I = identity<mat<real>>(n, n); auto D = diagonal<mat<real>>(v, n, n); auto H = hilbert<mat<real>>(n); auto T = translation<mat<real>>(v, n + 1, n + 1); bool a = I.rows() == n && I.cols() == n && D.rows() == n && D.cols() == n, b = H.rows() == n && H.cols() == n, c = T.rows() == n + 1 && T.cols() == n + 1; for (unsigned i = 0; i < n && a && b; ++i) for (unsigned j = 0; j < n; ++j) { a = a && I(i, j) == (i == j) && D(i, j) == (i == j ? v[i] : 0); b = b && std::fabs(H(i, j) * (i + j + 1) - 1) < 1e-14; } for (unsigned i = 0; i <= n && c; ++i) for (unsigned j = 0; j <= n; ++j) c = c && T(i, j) == (i == j ? 1 : j == n ? v[i] : 0); CHECK("identity and diagonal", a); CHECK("Hilbert", b); CHECK("translation", c); if (n % 2 == 0) { auto J = symplectic<mat<real>>(n, n); bool ok = J.rows() == n && J.cols() == n; for (unsigned i = 0; ok && i < n; ++i) for (unsigned j = 0; j < n; ++j) ok = ok && J(i, j) == (j == i + n / 2 ? 1 : i == j + n / 2 ? -1 : 0); CHECK("symplectic", ok); } CHECK("no error", errno == 0); }
	for (int e = -20; e <= 100; e += 4) words<real>({-1, 0, 2}, 3, [&](const V& c) { V t = {1, -2, 1}; if (!vf::begin("look at from %s in units 2^%d", show(c).c_str(), e)) return; real s = std::ldexp(1.0, e); V u = {0, 1, 0}; vec<real, 3> C = mkv<vec<real, 3>>(c), T = mkv<vec<real, 3>>(t), U = mkv<vec<real, 3>>(u), Cs, Ts, Us; for (int i = 0; i < 3; ++i) { Cs[i] = C[i] * s; Ts[i] = T[i] * s; Us[i] = U[i] * s; } errno = 0; auto a = look_at<mat<real, 4, 4>>(C, T, U), b = look_at<mat<real, 4, 4>>(Cs, Ts, Us); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double k = j == 3 && i < 3 ? s : 1; NEAR("look at", b(i, j), a(i, j) * k, 0, 1e-12 * k); } CHECK("no error", errno == 0); });
	for (int e = -40; e <= 100; e += 5) if (vf::begin("projections in units 2^%d", e)) { real s = std::ldexp(1.0, e), n = 0.5 * s, f = 4 * s, l = -2 * s, r = 3 * s, b = -s, t = 2 * s; errno = 0; auto cmp = [&](const char* tag, const std::vector<std::vector<L>>& m, bool persp, L l, L r, L b, L t) { bool good[2] = {true, true}; for (int row = 0; row < 2; ++row) for (int c = 0; c < 8; ++c) { L z = c & 4 ? f : n, k = persp ? z / n : 1; std::vector<L> v = {(c & 1 ? r : l) * k, (c & 2 ? t : b) * k, -z, 1}, q = apply(m, v, row); L w[3] = {c & 1 ? 1.0L : -1, c & 2 ? 1.0L : -1, c & 4 ? 1.0L : -1}; if (!(q[3] > 0)) good[row] = false; for (int i = 0; i < 3; ++i) if (!(fabsl(q[i] / q[3] - w[i]) < 1e-9)) good[row] = false; } CHECK(tag, good[0] || good[1]); }; cmp("frustum", tab(perspective<mat<real, 4, 4>>(l, r, b, t, n, f)), true, l, r, b, t); cmp("box", tab(ortho<mat<real, 4, 4>>(l, r, b, t, n, f)), false, l, r, b, t); for (real fov : {5., 45., 60., 120., 170.}) for (real as : {0.25, 1., 2.}) { L h = n * tanl(fov * M_PIl / 360), w = h * as; cmp("field of view", tab(perspective_fov<mat<real, 4, 4>>(fov, as, n, f)), true, -w, w, -h, h); } CHECK("no error", errno == 0); }
	for (unsigned n = 1; n <= 12; ++n) for (int e = -20; e <= 60; e += 8) if (vf::begin("sphere inversion in %u dimensions in units 2^%d", n, e)) { real s = std::ldexp(1.0, e); vec<real> x(n), o(n); L q = 0; for (unsigned i = 0; i < n; ++i) { x[i] = (1 + (i * 5) % 7) * s; o[i] = -(real) (i % 3) * s; q += ((L) x[i] - o[i]) * ((L) x[i] - o[i]); } auto y = sphere_inversion(x, o, 3 * s); for (unsigned i = 0; i < n; ++i) NEAR("inversion", y[i], o[i] + ((L) x[i] - o[i]) * 9 * s * s / q, 1e-12, 1e-12 * s); auto z = sphere_inversion(y, o, 3 * s); for (unsigned i = 0; i < n; ++i) NEAR("involution", z[i], x[i], 1e-10, 1e-10 * s); }
}
VF_MAIN
