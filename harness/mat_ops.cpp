// mat containers: operation sequences over dynamic matrices against a row-major model (all layouts),
// and pure matrix arithmetic on every small shape for fixed-size and dynamic matrices.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
struct M { unsigned r = 0, c = 0; std::vector<double> v; M() {} M(unsigned r, unsigned c, double x = 0) : r(r), c(c), v(r * c, x) {}
	double& operator()(unsigned i, unsigned j) { return v[i * c + j]; } double operator()(unsigned i, unsigned j) const { return v[i * c + j]; } };
static bool same(double a, double b) { return (a != a && b != b) || a == b; }
template<class X> static void agree(const std::string& tag, const X& x, const M& m) {
	++vf::S().checks;
	if (x.rows() != m.r || x.cols() != m.c || x.size() != m.r * m.c) { vf::fail(tag, "shape %ux%u, expected %ux%u", x.rows(), x.cols(), m.r, m.c); return; }
	uint64_t h = m.r * 16 + m.c;
	for (unsigned i = 0; i < m.r; ++i) for (unsigned j = 0; j < m.c; ++j) {
		if (!same(x(i, j), m(i, j)) || !same(x.get(i, j), m(i, j)) || !same(x.at(i, j), m(i, j))) vf::fail(tag, "element (%u,%u) is %.17g, expected %.17g", i, j, (double) x(i, j), m(i, j));
		h = vf::mix(h, vf::hd(m(i, j)));
	}
	vf::state(h);
	if (m.r && m.c) { size_t k = 0; for (auto it = x.begin(); it != x.end(); ++it) { if (k < m.v.size() && !same(*it, m.v[k])) vf::fail(tag, "row-major iteration differs at %zu", k); if (++k > m.v.size()) break; }
		if (k != m.v.size()) vf::fail(tag, "iteration visits %zu of %zu elements", k, m.v.size()); }
}
static M bad(unsigned r, unsigned c) { M m(r, c); for (unsigned i = 0; i < std::min(r, c); ++i) m(i, i) = NaN; return m; }
static M mulm(const M& a, const M& b) { M r(a.r, b.c); for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < b.c; ++j) for (unsigned k = 0; k < a.c; ++k) r(i, j) += a(i, k) * b(k, j); return r; }
static M tr(const M& a) { M r(a.c, a.r); for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) r(j, i) = a(i, j); return r; }
static M lin(double s, const M& a, double t, const M& b) { M r(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = s * a.v[i] + t * b.v[i]; return r; }
static M scl(double s, const M& a) { M r = a; for (auto& x : r.v) x *= s; return r; }

// ---- sequences on a dynamic matrix (two registers) ------------------------------------------------
typedef mat<real> X;
struct Op { const char* name; void (*f)(X&, X&); void (*m)(M&, M&, bool&); };
static void mres(M& a, unsigned r, unsigned c) { M n(r, c); for (unsigned i = 0; i < std::min(r, a.r); ++i) for (unsigned j = 0; j < std::min(c, a.c); ++j) n(i, j) = a(i, j); a = n; }
static bool sameshape(const M& a, const M& b) { return a.r == b.r && a.c == b.c; }
static const std::vector<Op> ops = {
	{"a.resize(1,3)", [](X& a, X&) { a.resize(1, 3); }, [](M& a, M&, bool&) { mres(a, 1, 3); }},
	{"a.resize(3,1)", [](X& a, X&) { a.resize(3, 1); }, [](M& a, M&, bool&) { mres(a, 3, 1); }},
	{"a.resize(2,3)", [](X& a, X&) { a.resize(2, 3); }, [](M& a, M&, bool&) { mres(a, 2, 3); }},
	{"a.resize(3,2)", [](X& a, X&) { a.resize(3, 2); }, [](M& a, M&, bool&) { mres(a, 3, 2); }},
	{"a.resize(2,2)", [](X& a, X&) { a.resize(2, 2); }, [](M& a, M&, bool&) { mres(a, 2, 2); }},
	{"a.resize(0,0)", [](X& a, X&) { a.resize(0, 0); }, [](M& a, M&, bool&) { a = M(); }},
	{"number the elements", [](X& a, X&) { for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.cols(); ++j) a(i, j) = 10 * i + j + 1; }, [](M& a, M&, bool&) { for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) a(i, j) = 10 * i + j + 1; }},
	{"a.at(last)=5", [](X& a, X&) { if (a.size()) a.at(a.rows() - 1, a.cols() - 1) = 5; }, [](M& a, M&, bool&) { if (a.v.size()) a(a.r - 1, a.c - 1) = 5; }},
	{"a=b", [](X& a, X& b) { a = b; }, [](M& a, M& b, bool&) { a = b; }},
	{"swap", [](X& a, X& b) { X t = a; a = b; b = t; }, [](M& a, M& b, bool&) { std::swap(a, b); }},
	{"a=fixed 2x3", [](X& a, X&) { a = mat<real, 2, 3>({{1, 2, 3}, {4, 5, 6}}); }, [](M& a, M&, bool&) { a = M(2, 3); for (int i = 0; i < 6; ++i) a.v[i] = i + 1; }},
	{"a=list 3x2", [](X& a, X&) { a = X({{1, 2}, {3, 4}, {5, 6}}); }, [](M& a, M&, bool&) { a = M(3, 2); for (int i = 0; i < 6; ++i) a.v[i] = i + 1; }},
	{"a=diag(2,3x2)", [](X& a, X&) { a = X(2.0, 3, 2); }, [](M& a, M&, bool&) { a = M(3, 2); a(0, 0) = a(1, 1) = 2; }},
	{"a+=b", [](X& a, X& b) { a += b; }, [](M& a, M& b, bool& e) { if (sameshape(a, b)) a = lin(1, a, 1, b); else { e = true; a = bad(a.r, a.c); } }},
	{"a-=b", [](X& a, X& b) { a -= b; }, [](M& a, M& b, bool& e) { if (sameshape(a, b)) a = lin(1, a, -1, b); else { e = true; a = bad(a.r, a.c); } }},
	{"a=a+b", [](X& a, X& b) { a = a + b; }, [](M& a, M& b, bool& e) { if (sameshape(a, b)) a = lin(1, a, 1, b); else { e = true; a = bad(a.r, a.c); } }},
	{"a=b-a", [](X& a, X& b) { a = b - a; }, [](M& a, M& b, bool& e) { if (sameshape(a, b)) a = lin(1, b, -1, a); else { e = true; a = bad(b.r, b.c); } }},
	{"a*=2", [](X& a, X&) { a *= 2.0; }, [](M& a, M&, bool&) { a = scl(2, a); }},
	{"a/=4", [](X& a, X&) { a /= 4.0; }, [](M& a, M&, bool&) { a = scl(0.25, a); }},
	{"a/=0", [](X& a, X&) { a /= 0.0; }, [](M& a, M&, bool& e) { e = true; a = bad(a.r, a.c); }},
	{"a=a*b", [](X& a, X& b) { a = a * b; }, [](M& a, M& b, bool& e) { if (a.c == b.r) a = mulm(a, b); else { e = true; a = bad(a.r, b.c); } }},
	{"a*=b", [](X& a, X& b) { a *= b; }, [](M& a, M& b, bool& e) { if (a.c == b.r) a = mulm(a, b); else { e = true; a = bad(a.r, b.c); } }},
	{"a=transpose(a)", [](X& a, X&) { a = algebra::transpose(a); }, [](M& a, M&, bool&) { a = tr(a); }},
	{"a.transpose()", [](X& a, X&) { a.transpose(); }, [](M& a, M&, bool& e) { if (a.r == a.c) a = tr(a); else { e = true; a = bad(a.r, a.c); } }},
	{"swap_rows(0,1)", [](X& a, X&) { algebra::mat_swap_rows(a, 0, 1); }, [](M& a, M&, bool& e) { if (a.r < 2) { e = true; a = bad(a.r, a.c); } else for (unsigned j = 0; j < a.c; ++j) std::swap(a(0, j), a(1, j)); }},
	{"swap_cols(0,1)", [](X& a, X&) { algebra::mat_swap_cols(a, 0, 1); }, [](M& a, M&, bool& e) { if (a.c < 2) { e = true; a = bad(a.r, a.c); } else for (unsigned i = 0; i < a.r; ++i) std::swap(a(i, 0), a(i, 1)); }},
	{"shift_diagonal(3)", [](X& a, X&) { algebra::mat_shift_diagonal(a, 3.0); }, [](M& a, M&, bool&) { for (unsigned i = 0; i < std::min(a.r, a.c); ++i) a(i, i) += 3; }},
	{"identity", [](X& a, X&) { algebra::make_identity(a); }, [](M& a, M&, bool&) { a = M(a.r, a.c); for (unsigned i = 0; i < std::min(a.r, a.c); ++i) a(i, i) = 1; }},
	{"zeroes", [](X& a, X&) { a.make_zeroes(); }, [](M& a, M&, bool&) { a = M(a.r, a.c); }},
};
static void walk(size_t depth) {
	std::vector<size_t> all(ops.size()); for (size_t i = 0; i < ops.size(); ++i) all[i] = i;
	words(all, depth, [&](const std::vector<size_t>& w) {
		std::string d; for (size_t k : w) d += std::string(d.empty() ? "" : "; ") + ops[k].name;
		if (!vf::begin("%s", d.c_str())) return;
		X a({{1, 2, 3}, {4, 5, 6}}), b({{2., 0.}, {-1., 3.}, {0.5, 4.}}); M ma(2, 3), mb(3, 2);
		for (int i = 0; i < 6; ++i) ma.v[i] = i + 1; double bv[] = {2, 0, -1, 3, 0.5, 4}; for (int i = 0; i < 6; ++i) mb.v[i] = bv[i];
		for (size_t k : w) {
			bool e = false; errno = 0; ops[k].f(a, b); int er = errno; ops[k].m(ma, mb, e);
			agree(ops[k].name, a, ma); agree(ops[k].name, b, mb);
			CHECKF(std::string(ops[k].name) + " errno", (er != 0) == e, "errno=%d", er);
		}
	});
}
SECTION(dynamic_sequences) { for (int d = 0; d <= 3; ++d) walk(d); }
SECTION(dynamic_deep) { if (vf::thorough()) walk(4); }
SECTION(resize_shapes) {
	if (vf::begin("default constructed")) { X a; EQ("default rows", a.rows(), 0u); EQ("default cols", a.cols(), 0u); EQ("default size", a.size(), 0u); mat<real, 2, 3> f; agree("static default", f, M(2, 3)); errno = 0; M d(3, 3); for (int i = 0; i < 3; ++i) d(i, i) = 5; agree("static diagonal", mat<real, 3, 3>(5.0), d); agree("static diagonal with its size", mat<real, 3, 3>(5.0, 3, 3), d); agree("dynamic diagonal", X(5.0, 3, 3), d); CHECK("diagonal errno", errno == 0); }
	// every pair of shapes up to 4x4: surviving elements keep their value, new ones are zero
	for (unsigned r = 0; r <= 4; ++r) for (unsigned c = 0; c <= 4; ++c) for (unsigned p = 0; p <= 4; ++p) for (unsigned q = 0; q <= 4; ++q) {
		if ((r == 0) != (c == 0) || (p == 0) != (q == 0)) continue;
		if (!vf::begin("resize %ux%u -> %ux%u", r, c, p, q)) continue;
		X a(r, c); M m(r, c); agree("new matrix is zero", a, m);
		for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { a(i, j) = 10 * i + j + 1; m(i, j) = 10 * i + j + 1; }
		agree("distinct elements", a, m);
		a.resize(p, q); mres(m, p, q); agree("resize", a, m);
		X b; b = a; agree("assign", b, m); X cpy(a); agree("copy", cpy, m);
		CHECK("copy equal", cpy == a); if (p) { cpy(p - 1, q - 1) += 1; CHECK("changed copy differs", cpy != a); agree("source unchanged", a, m); }
	}
}

// ---- pure arithmetic on every shape ----------------------------------------------------------------
template<class T> static T mk(const M& m) { T x; x.resize(m.r, m.c); for (unsigned i = 0; i < m.r; ++i) for (unsigned j = 0; j < m.c; ++j) x(i, j) = m(i, j); return x; }
static void arith(const M& a, const M& b) {
	const X x = mk<X>(a), y = mk<X>(b);
	bool ok = sameshape(a, b);
	auto er = [&](const char* t, bool e) { CHECKF(std::string(t) + " errno", (errno != 0) == e, "errno=%d", errno); errno = 0; };
	errno = 0;
	agree("a+b", X(x + y), ok ? lin(1, a, 1, b) : bad(a.r, a.c)); er("a+b", !ok);
	agree("a-b", X(x - y), ok ? lin(1, a, -1, b) : bad(a.r, a.c)); er("a-b", !ok);
	X r(a.r, a.c); algebra::mat_sum(r, x, y); agree("mat_sum", r, ok ? lin(1, a, 1, b) : bad(a.r, a.c)); er("mat_sum", !ok);
	r = x; algebra::mat_sum(r, y); agree("mat_sum2", r, ok ? lin(1, a, 1, b) : bad(a.r, a.c)); er("mat_sum2", !ok);
	r = x; algebra::mat_diff(r, y); agree("mat_diff2", r, ok ? lin(1, a, -1, b) : bad(a.r, a.c)); er("mat_diff2", !ok);
	r = x; algebra::mat_diff(r, x, y); agree("mat_diff", r, ok ? lin(1, a, -1, b) : bad(a.r, a.c)); er("mat_diff", !ok);
	r = x; algebra::mat_lincomb(3.0, r, -2.0, y); agree("mat_lincomb2", r, ok ? lin(3, a, -2, b) : bad(a.r, a.c)); er("mat_lincomb2", !ok);
	r = x; algebra::mat_lincomb(r, 3.0, x, -2.0, y); agree("mat_lincomb", r, ok ? lin(3, a, -2, b) : bad(a.r, a.c)); er("mat_lincomb", !ok);
	bool okm = a.c == b.r; M pr = okm ? mulm(a, b) : bad(a.r, b.c);
	agree("a*b", X(x * y), pr); er("a*b", !okm);
	agree("mul", x.mul(y), pr); er("mul", !okm);
	agree("mat_mul", algebra::mat_mul(x, y), pr); er("mat_mul", !okm);
	X z(a.r, b.c); algebra::mat_mul(z, x, y); agree("mat_mul3", z, pr); er("mat_mul3", !okm);
	bool okt = a.r == b.r; agree("transpose_mul", algebra::mat_transpose_mul(x, y), okt ? mulm(tr(a), b) : bad(a.c, b.c)); er("transpose_mul", !okt);
	bool oku = a.c == b.c; agree("mul_transpose", algebra::mat_mul_transpose(x, y), oku ? mulm(a, tr(b)) : bad(a.r, b.r)); er("mul_transpose", !oku);
	CHECK("==", (x == y) == (ok && a.v == b.v)); CHECK("!=", (x != y) == !(ok && a.v == b.v));
	agree("operand a", x, a); agree("operand b", y, b);
}
static void unary(const M& a) {
	const X x = mk<X>(a); errno = 0;
	agree("-transpose", algebra::transpose(x), tr(a));
	X t(a.c, a.r); algebra::transpose(t, x); agree("transpose dest", t, tr(a));
	agree("hermitian of real", algebra::hermitian(x), tr(a));
	X h(a.c, a.r); algebra::hermitian(h, x); agree("hermitian dest", h, tr(a));
	agree("3*a", X(3.0 * x), scl(3, a)); agree("a*3", X(x * 3.0), scl(3, a)); agree("a/4", X(x / 4.0), scl(0.25, a));
	X s(a.r, a.c); algebra::mat_scalmul(s, 5.0, x); agree("scalmul", s, scl(5, a)); s = x; algebra::mat_scalmul(5.0, s); agree("scalmul2", s, scl(5, a));
	double trc = 0, dp = 1; unsigned n = std::min(a.r, a.c); for (unsigned i = 0; i < n; ++i) { trc += a(i, i); dp *= a(i, i); }
	EQ("trace", algebra::trace(x), trc); EQ("diagonal_product", algebra::diagonal_product(x), dp);
	bool sq = a.r == a.c, dg = true, sy = sq, lo = sq, up = sq; int nz = 0;
	for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) { if (a(i, j) != 0) { ++nz; if (i != j) dg = false; if (i > j) up = false; if (j > i) lo = false; } if (sq && a(i, j) != a(j, i)) sy = false; }
	EQ("is_square", algebra::is_square(x), sq); EQ("is_diagonal", algebra::is_diagonal(x), dg); EQ("is_symmetric", algebra::is_symmetric(x), sy);
	EQ("is_lower", algebra::is_lower_triangular(x), lo); EQ("is_upper", algebra::is_upper_triangular(x), up);
	NEAR("density", algebra::density(x), nz / (double) (a.r * a.c), 1e-12, 1e-12); NEAR("sparsity", algebra::sparsity(x), 1 - nz / (double) (a.r * a.c), 1e-12, 1e-12);
	CHECK("unary errno", errno == 0);
	for (unsigned k = 0; k <= a.c + 1; ++k) {
		vec<real> v(k, 0.0); std::vector<double> w(a.r, 0.0);
		for (unsigned i = 0; i < k; ++i) v[i] = 2.0 * i - 1;
		bool ok = k == a.c;
		if (ok) for (unsigned i = 0; i < a.r; ++i) for (unsigned j = 0; j < a.c; ++j) w[i] += a(i, j) * v[j];
		auto cmp = [&](const char* tag, const vec<real>& g) { ++vf::S().checks; if (ok && g.size() != a.r) { vf::fail(tag, "size %u, expected %u", g.size(), a.r); return; } for (unsigned i = 0; i < g.size(); ++i) if (ok ? g[i] != w[i] : g[i] == g[i]) vf::fail(tag, "element %u is %.17g", i, g[i]); CHECKF(std::string(tag) + " errno", (errno == 0) == ok, "errno=%d", errno); errno = 0; };
		errno = 0; vec<real> g = algebra::transform(x, v); cmp("transform", g);
		g = x.transform(v); cmp("mat::transform", g);
		g = x * v; cmp("mat*vec", g);
		vec<real> u(a.r, 9.0); algebra::transform(u, x, v); cmp("transform dest", u);
		vec<real> q = v; algebra::apply_transform(x, q); cmp("apply_transform", q);
		for (unsigned i = 0; i < k; ++i) EQ("vector unchanged", v[i], 2.0 * i - 1);
	}
	// operations defined by index
	for (unsigned p = 0; p <= a.r; ++p) for (unsigned q = 0; q <= a.r; ++q) {
		bool ok = p < a.r && q < a.r; errno = 0; X y = x; algebra::mat_swap_rows(y, p, q); M m = a; if (ok) { for (unsigned j = 0; j < a.c; ++j) std::swap(m(p, j), m(q, j)); } else m = bad(a.r, a.c);
		agree("swap_rows", y, m); CHECK("swap_rows errno", (errno == 0) == ok);
	}
	for (unsigned p = 0; p <= a.c; ++p) for (unsigned q = 0; q <= a.c; ++q) {
		bool ok = p < a.c && q < a.c; errno = 0; X y = x; algebra::mat_swap_cols(y, p, q); M m = a; if (ok) { for (unsigned i = 0; i < a.r; ++i) std::swap(m(i, p), m(i, q)); } else m = bad(a.r, a.c);
		agree("swap_cols", y, m); CHECK("swap_cols errno", (errno == 0) == ok);
	}
}
static std::string sh(const M& m) { char b[32]; snprintf(b, sizeof b, "%ux%u", m.r, m.c); return b + show(m.v); }
static void over(unsigned r, unsigned c, const std::vector<double>& al, const std::function<void(const M&)>& f) {
	words(al, r * c, [&](const std::vector<double>& v) { M m(r, c); m.v = v; f(m); });
}
SECTION(unary_ops) {
	for (unsigned r = 1; r <= 3; ++r) for (unsigned c = 1; c <= 3; ++c) {
		std::vector<double> al = r * c <= 4 ? std::vector<double>{-2, 0, 1, 3} : r * c <= 6 ? std::vector<double>{-1, 0, 2} : std::vector<double>{0, 1};
		if (vf::thorough() && r * c > 6) al = {-1, 0, 2};
		over(r, c, al, [&](const M& m) { if (vf::begin("%s", sh(m).c_str())) unary(m); });
	}
	for (unsigned r = 1; r <= 6; ++r) for (unsigned c = 1; c <= 6; ++c) { M m(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = 7.0 * i - 3.0 * j + i * j + 1; if (vf::begin("numbered %ux%u", r, c)) unary(m); }
}
SECTION(binary_ops) {
	// every pair of shapes up to 4x4, two fillings each
	for (unsigned r = 1; r <= 4; ++r) for (unsigned c = 1; c <= 4; ++c) for (unsigned p = 1; p <= 4; ++p) for (unsigned q = 1; q <= 4; ++q) for (int f = 0; f < 2; ++f) {
		M a(r, c), b(p, q); for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = f ? (double) ((i * 5) % 7) - 3 : i + 1.0; for (size_t i = 0; i < b.v.size(); ++i) b.v[i] = f ? (double) ((i * 3) % 5) - 2 : 2.0 * i - 3;
		if (vf::begin("%s %s", sh(a).c_str(), sh(b).c_str())) arith(a, b);
	}
	// every pair of 2x2 over a small alphabet, every 1x2/2x1 pair
	for (unsigned r = 1; r <= 2; ++r) for (unsigned c = 1; c <= 2; ++c) for (unsigned p = 1; p <= 2; ++p) for (unsigned q = 1; q <= 2; ++q)
		over(r, c, {-1, 0, 2}, [&](const M& a) { over(p, q, {-1, 0, 2}, [&](const M& b) { if (vf::begin("%s %s", sh(a).c_str(), sh(b).c_str())) arith(a, b); }); });
}
// ---- fixed-size matrices: all shapes up to 3x3 -----------------------------------------------------
template<unsigned N, unsigned K> static M num(int f) { M m(N, K); for (size_t i = 0; i < m.v.size(); ++i) m.v[i] = f ? (double) ((i * 5 + f) % 7) - 3 : i + 1.0; return m; }
template<unsigned N, unsigned K, unsigned L> static void fixed3() {
	for (int f = 0; f < 4; ++f) {
		if (!vf::begin("fixed %ux%u * %ux%u filling %d", N, K, K, L, f)) continue;
		M a = num<N, K>(f), b = num<K, L>(f + 1), c = num<N, K>(f + 2);
		typedef mat<real, N, K> F; const F x = mk<F>(a), z = mk<F>(c); const mat<real, K, L> y = mk<mat<real, K, L>>(b);
		errno = 0;
		agree("fixed build", x, a);
		agree("fixed a*b", x * y, mulm(a, b)); agree("fixed mul", x.mul(y), mulm(a, b));
		agree("fixed a+c", F(x + z), lin(1, a, 1, c)); agree("fixed a-c", F(x - z), lin(1, a, -1, c));
		agree("fixed 3a", F(3.0 * x), scl(3, a)); agree("fixed a*3", F(x * 3.0), scl(3, a)); agree("fixed a/4", F(x / 4.0), scl(0.25, a));
		F w = x; w += z; agree("fixed +=", w, lin(1, a, 1, c)); w = x; w -= z; agree("fixed -=", w, lin(1, a, -1, c)); w = x; w *= 2.0; agree("fixed *=", w, scl(2, a)); w = x; w /= 2.0; agree("fixed /=", w, scl(0.5, a));
		mat<real, K, N> t; algebra::transpose(t, x); agree("fixed transpose", t, tr(a));
		agree("fixed transpose2", algebra::transpose<F, mat<real, K, N>>(x), tr(a));
		mat<real> dyn; dyn = x; agree("fixed to dynamic", dyn, a); F back(dyn); agree("dynamic to fixed", back, a);
		mat<real> dp = mk<mat<real>>(b); agree("fixed*dynamic", x * dp, mulm(a, b));
		vec<real, K> v; std::vector<double> wv(N, 0); for (unsigned j = 0; j < K; ++j) v[j] = 2.0 * j - 1; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < K; ++j) wv[i] += a(i, j) * v[j];
		vec<real, N> g = x * v, g2 = x.transform(v), g3; algebra::transform(g3, x, v);
		for (unsigned i = 0; i < N; ++i) { EQ("fixed a*v", g[i], wv[i]); EQ("fixed transform", g2[i], wv[i]); EQ("fixed transform dest", g3[i], wv[i]); }
		std::vector<real> sv(K); for (unsigned j = 0; j < K; ++j) sv[j] = v[j]; auto gs = x.transform(sv); EQ("fixed transform std size", gs.size(), N); for (unsigned i = 0; i < N && i < gs.size(); ++i) EQ("fixed transform std", gs[i], wv[i]);
		F d(2.5); M md(N, K); for (unsigned i = 0; i < std::min(N, K); ++i) md(i, i) = 2.5; agree("fixed diagonal", d, md);
		F zz; agree("fixed zero", zz, M(N, K)); CHECK("fixed ==", (x == z) == (a.v == c.v)); CHECK("fixed !=", (x != z) == (a.v != c.v)); CHECK("fixed == dynamic", x == dyn);
		CHECK("fixed errno", errno == 0);
		errno = 0; F q = x / 0.0; CHECK("fixed /0 errno", errno == ERANGE); agree("fixed /0", q, bad(N, K));
	}
}
SECTION(fixed_shapes) {
	fixed3<1, 1, 1>(); fixed3<1, 2, 1>(); fixed3<2, 1, 2>(); fixed3<2, 2, 2>(); fixed3<2, 3, 2>(); fixed3<3, 2, 3>(); fixed3<3, 3, 3>(); fixed3<1, 3, 2>(); fixed3<3, 1, 2>(); fixed3<2, 3, 4>(); fixed3<4, 2, 3>(); fixed3<4, 4, 4>(); fixed3<3, 4, 1>();
	if (vf::begin("initializer lists")) {
		errno = 0; mat<real, 2, 3> a({{1, 2, 3}, {4, 5, 6}}); M m(2, 3); for (int i = 0; i < 6; ++i) m.v[i] = i + 1; agree("fixed list", a, m); EQ("list errno", errno, 0);
		mat<real, 2, 3> b({{1, 2, 3}}); EQ("list rows errno", errno, EINVAL); agree("fixed short list", b, bad(2, 3));
		errno = 0; mat<real, 2, 3> c({{1, 2}, {3, 4}}); EQ("list cols errno", errno, EINVAL); agree("fixed narrow list", c, bad(2, 3));
		errno = 0; mat<real> d({{1, 2, 3}, {4, 5, 6}}); agree("dynamic list", d, m); EQ("dlist errno", errno, 0);
		errno = 0; mat<real> e({{1, 2, 3}, {4, 5}}); EQ("dlist jagged errno", errno, EINVAL); agree("dynamic jagged", e, bad(2, 3));
	}
}
VF_MAIN
