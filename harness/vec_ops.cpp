// vec containers: every operation sequence up to a depth on dynamic and fixed-size vectors, checked
// after each operation against a plain model; plus every small pair of vectors for the pure operations.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
typedef std::vector<double> D;
static const double NaN = std::numeric_limits<double>::quiet_NaN();

static bool same(double a, double b) { return (a != a && b != b) || a == b; }
template<class X> static void agree(const char* tag, const X& x, const D& m) {
	++vf::S().checks;
	if (x.size() != m.size()) { vf::fail(tag, "size %u, expected %zu", (unsigned) x.size(), m.size()); return; }
	uint64_t h = m.size();
	for (size_t i = 0; i < m.size(); ++i) {
		if (!same(x[i], m[i]) || !same(x.get(i), m[i])) vf::fail(tag, "element %zu is %.17g, expected %.17g", i, (double) x[i], m[i]);
		h = vf::mix(h, vf::hd(m[i]));
	}
	vf::state(h);
	size_t k = 0; for (auto v : x) { if (k < m.size() && !same(v, m[k])) vf::fail(tag, "iteration differs at %zu", k); ++k; }
	if (k != m.size()) vf::fail(tag, "iteration visits %zu elements", k);
	std::string s = "("; for (size_t i = 0; i < m.size(); ++i) { std::ostringstream o; o << x[i]; s += (i ? ", " : "") + o.str(); } s += ")";
	bool anynan = false; for (double v : m) anynan |= v != v;
	if (!anynan && x.to_string() != s) vf::fail(tag, "prints %s, expected %s", x.to_string().c_str(), s.c_str());
}

// ---- dynamic vectors: two registers -------------------------------------------------------------
struct Op { const char* name; void (*real_)(vec<real>&, vec<real>&); void (*model)(D&, D&); bool (*err)(const D&, const D&); };
static bool no(const D&, const D&) { return false; }
static bool diffsize(const D& a, const D& b) { return a.size() != b.size(); }
static D fill(size_t n, double v) { return D(n, v); }
static void madd(D& a, const D& b, double s) { for (size_t i = 0; i < a.size(); ++i) a[i] += s * b[i]; }
static const std::vector<Op> ops = {
	{"a.resize(0)", [](vec<real>& a, vec<real>&) { a.resize(0); }, [](D& a, D&) { a.resize(0); }, no},
	{"a.resize(2)", [](vec<real>& a, vec<real>&) { a.resize(2); }, [](D& a, D&) { a.resize(2); }, no},
	{"a.resize(3)", [](vec<real>& a, vec<real>&) { a.resize(3); }, [](D& a, D&) { a.resize(3); }, no},
	{"a.push(7)", [](vec<real>& a, vec<real>&) { a.push(7); }, [](D& a, D&) { a.push_back(7); }, no},
	{"push(lvalue)", [](vec<real>& a, vec<real>&) { real x = -3; a.push(x); }, [](D& a, D&) { a.push_back(-3); }, no},
	{"a[0]=5", [](vec<real>& a, vec<real>&) { if (a.size()) a[0] = 5; }, [](D& a, D&) { if (a.size()) a[0] = 5; }, no},
	{"a.set(last,2)", [](vec<real>& a, vec<real>&) { if (a.size()) a.set(a.size() - 1, 2); }, [](D& a, D&) { if (a.size()) a.back() = 2; }, no},
	{"a.at(1)=-1", [](vec<real>& a, vec<real>&) { if (a.size() > 1) a.at(1) = -1; }, [](D& a, D&) { if (a.size() > 1) a[1] = -1; }, no},
	{"a+=b", [](vec<real>& a, vec<real>& b) { a += b; }, [](D& a, D& b) { if (a.empty()) a.assign(b.size(), 0); if (a.size() != b.size()) a = fill(a.size() ? a.size() : 1, NaN); else madd(a, b, 1); },
		[](const D& a, const D& b) { return !a.empty() && a.size() != b.size(); }},
	{"a-=b", [](vec<real>& a, vec<real>& b) { a -= b; }, [](D& a, D& b) { if (a.size() != b.size()) a = fill(a.size() ? a.size() : 1, NaN); else madd(a, b, -1); }, diffsize},
	{"a+=a", [](vec<real>& a, vec<real>&) { a += a; }, [](D& a, D&) { for (auto& x : a) x += x; }, no},
	{"a-=a", [](vec<real>& a, vec<real>&) { a -= a; }, [](D& a, D&) { for (auto& x : a) x -= x; }, no},
	{"a*=2", [](vec<real>& a, vec<real>&) { a *= 2; }, [](D& a, D&) { for (auto& x : a) x *= 2; }, no},
	{"a/=4", [](vec<real>& a, vec<real>&) { a /= 4; }, [](D& a, D&) { for (auto& x : a) x /= 4; }, no},
	{"a/=0", [](vec<real>& a, vec<real>&) { a /= 0; }, [](D& a, D&) { a = fill(a.size() ? a.size() : 1, NaN); }, [](const D&, const D&) { return true; }},
	{"a=b", [](vec<real>& a, vec<real>& b) { a = b; }, [](D& a, D& b) { a = b; }, no},
	{"a=std::vector", [](vec<real>& a, vec<real>&) { a = std::vector<real>{1, 2}; }, [](D& a, D&) { a = {1, 2}; }, no},
	{"a=vec<3>", [](vec<real>& a, vec<real>&) { a = vec<real, 3>({4, 5, 6}); }, [](D& a, D&) { a = {4, 5, 6}; }, no},
	{"a=a", [](vec<real>& a, vec<real>&) { vec<real>& r = a; a = r; }, [](D&, D&) {}, no},
	{"swap(a,b)", [](vec<real>& a, vec<real>& b) { vec<real> t = a; a = b; b = t; }, [](D& a, D& b) { std::swap(a, b); }, no},
	{"a=-a", [](vec<real>& a, vec<real>&) { a = -a; }, [](D& a, D&) { for (auto& x : a) x = -x; }, no},
	{"a=a+b", [](vec<real>& a, vec<real>& b) { a = a + b; }, [](D& a, D& b) { if (a.size() != b.size()) a = fill(a.size(), NaN); else madd(a, b, 1); }, diffsize},
	{"a=a-b", [](vec<real>& a, vec<real>& b) { a = a - b; }, [](D& a, D& b) { if (a.size() != b.size()) a = fill(a.size(), NaN); else madd(a, b, -1); }, diffsize},
	{"a=3*a", [](vec<real>& a, vec<real>&) { a = 3.0 * a; }, [](D& a, D&) { for (auto& x : a) x *= 3; }, no},
	{"b=vec(a)", [](vec<real>& a, vec<real>& b) { vec<real> t(a); b = t; t.resize(0); }, [](D& a, D& b) { b = a; }, no},
	{"a=euclidean_base", [](vec<real>& a, vec<real>&) { a = vec<real>::euclidean_base(1, 3); }, [](D& a, D&) { a = {0, 1, 0}; }, no},
	{"a=vec(2,9)", [](vec<real>& a, vec<real>&) { a = vec<real>(2, 9); }, [](D& a, D&) { a = {9, 9}; }, no},
};
static void walk(size_t depth) {
	std::vector<size_t> all(ops.size()); for (size_t i = 0; i < ops.size(); ++i) all[i] = i;
	words(all, depth, [&](const std::vector<size_t>& w) {
		std::string d; for (size_t k : w) d += std::string(d.empty() ? "" : "; ") + ops[k].name;
		if (!vf::begin("%s", d.c_str())) return;
		vec<real> a({1, 2}), b({3, -4, 0.5}); D ma = {1, 2}, mb = {3, -4, 0.5};
		for (size_t k : w) {
			bool e = ops[k].err(ma, mb);
			errno = 0; ops[k].real_(a, b); int er = errno; ops[k].model(ma, mb);
			agree(ops[k].name, a, ma); agree(ops[k].name, b, mb);
			CHECKF(std::string(ops[k].name) + " errno", (er != 0) == e, "errno=%d", er);
		}
	});
}
SECTION(dynamic_sequences) { for (int d = 0; d <= 3; ++d) walk(d); }
SECTION(dynamic_deep) { if (vf::thorough()) walk(4); }

// ---- fixed-size vectors ---------------------------------------------------------------------------
template<unsigned N> struct FOp { const char* name; void (*real_)(vec<real, N>&, vec<real, N>&); void (*model)(D&, D&); bool err; };
template<unsigned N> static void fixed_walk(size_t depth) {
	static const std::vector<FOp<N>> fo = {
		{"a+=b", [](vec<real, N>& a, vec<real, N>& b) { a += b; }, [](D& a, D& b) { madd(a, b, 1); }, false},
		{"a-=b", [](vec<real, N>& a, vec<real, N>& b) { a -= b; }, [](D& a, D& b) { madd(a, b, -1); }, false},
		{"a*=2", [](vec<real, N>& a, vec<real, N>&) { a *= 2; }, [](D& a, D&) { for (auto& x : a) x *= 2; }, false},
		{"a/=4", [](vec<real, N>& a, vec<real, N>&) { a /= 4; }, [](D& a, D&) { for (auto& x : a) x /= 4; }, false},
		{"a/=0", [](vec<real, N>& a, vec<real, N>&) { a /= 0; }, [](D& a, D&) { a = fill(N, NaN); }, true},
		{"a=b", [](vec<real, N>& a, vec<real, N>& b) { a = b; }, [](D& a, D& b) { a = b; }, false},
		{"swap", [](vec<real, N>& a, vec<real, N>& b) { vec<real, N> t = a; a = b; b = t; }, [](D& a, D& b) { std::swap(a, b); }, false},
		{"a=a+b", [](vec<real, N>& a, vec<real, N>& b) { a = a + b; }, [](D& a, D& b) { madd(a, b, 1); }, false},
		{"a=b-a", [](vec<real, N>& a, vec<real, N>& b) { a = b - a; }, [](D& a, D& b) { for (unsigned i = 0; i < N; ++i) a[i] = b[i] - a[i]; }, false},
		{"a=-a", [](vec<real, N>& a, vec<real, N>&) { a = -a; }, [](D& a, D&) { for (auto& x : a) x = -x; }, false},
		{"a=+a", [](vec<real, N>& a, vec<real, N>&) { a = +a; }, [](D&, D&) {}, false},
		{"a=a*3", [](vec<real, N>& a, vec<real, N>&) { a = a * 3.0; }, [](D& a, D&) { for (auto& x : a) x *= 3; }, false},
		{"a=0.5*a", [](vec<real, N>& a, vec<real, N>&) { a = 0.5 * a; }, [](D& a, D&) { for (auto& x : a) x *= 0.5; }, false},
		{"a=a/2", [](vec<real, N>& a, vec<real, N>&) { a = a / 2.0; }, [](D& a, D&) { for (auto& x : a) x /= 2; }, false},
		{"a[0]=5", [](vec<real, N>& a, vec<real, N>&) { a[0] = 5; }, [](D& a, D&) { a[0] = 5; }, false},
		{"set last", [](vec<real, N>& a, vec<real, N>&) { a.set(N - 1, -2); }, [](D& a, D&) { a[N - 1] = -2; }, false},
		{"a=dyn", [](vec<real, N>& a, vec<real, N>&) { vec<real> d(N, 6); a = d; }, [](D& a, D&) { a = fill(N, 6); }, false},
		{"a=std", [](vec<real, N>& a, vec<real, N>&) { a = std::vector<real>(N, 8); }, [](D& a, D&) { a = fill(N, 8); }, false},
		{"b=vec(1)", [](vec<real, N>&, vec<real, N>& b) { b = vec<real, N>(1.0); }, [](D&, D& b) { b = fill(N, 1); }, false},
		{"b=vec()", [](vec<real, N>&, vec<real, N>& b) { b = vec<real, N>(); }, [](D&, D& b) { b = fill(N, 0); }, false},
		{"b=e0", [](vec<real, N>&, vec<real, N>& b) { b = vec<real, N>::euclidean_base(N - 1); }, [](D&, D& b) { b = fill(N, 0); b[N - 1] = 1; }, false},
	};
	std::vector<size_t> all(fo.size()); for (size_t i = 0; i < fo.size(); ++i) all[i] = i;
	words(all, depth, [&](const std::vector<size_t>& w) {
		std::string d; for (size_t k : w) d += std::string(d.empty() ? "" : "; ") + fo[k].name;
		if (!vf::begin("vec<%u> %s", N, d.c_str())) return;
		vec<real, N> a, b; D ma(N), mb(N);
		for (unsigned i = 0; i < N; ++i) { a[i] = ma[i] = i + 1.0; b[i] = mb[i] = 3.0 - 2.0 * i; }
		for (size_t k : w) {
			errno = 0; fo[k].real_(a, b); int er = errno; fo[k].model(ma, mb);
			agree(fo[k].name, a, ma); agree(fo[k].name, b, mb);
			CHECKF(std::string(fo[k].name) + " errno", (er != 0) == fo[k].err, "errno=%d", er);
		}
	});
}
SECTION(fixed_sequences) { int D_ = vf::thorough() ? 4 : 3; for (int d = 0; d <= D_; ++d) { fixed_walk<1>(d); fixed_walk<2>(d); fixed_walk<3>(d); } }

// ---- pure operations on every pair of small vectors ---------------------------------------------------
template<class X> static X mk(const D& v) { X x; x.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return x; }
template<class X> static X crossm(const X& a, const X& b) { return algebra::cross(a, b); }
static vec<real, 3> crossm(const vec<real, 3>& a, const vec<real, 3>& b) { return a.cross(b); }
static vec<real> crossm(const vec<real>& a, const vec<real>& b) { return a.cross(b); }
template<class X> static void pure(const char* ty, const D& p, const D& q) {
	if (!vf::begin("%s a=%s b=%s", ty, show(p).c_str(), show(q).c_str())) return;
	const X a = mk<X>(p), b = mk<X>(q); size_t n = p.size();
	D s = p, d = p; double dt = 0, n2 = 0; for (size_t i = 0; i < n; ++i) { s[i] += q[i]; d[i] -= q[i]; dt += p[i] * q[i]; n2 += p[i] * p[i]; }
	errno = 0;
	agree("a+b", X(a + b), s); agree("a-b", X(a - b), d);
	EQ("dot", a * b, dt); EQ("dot member", a.dot(b), dt); EQ("algebra::dot", algebra::dot(a, b), dt); EQ("dot symmetric", b * a, dt);
	EQ("sqr_norm", a.sqr_norm(), n2); NEAR("norm", a.norm(), std::sqrt(n2), 1e-9, 0);
	NEAR("algebra::norm", algebra::norm(a), std::sqrt(n2), 1e-9, 0);
	EQ("==", a == b, p == q); EQ("!=", a != b, p != q);
	CHECK("pure errno", errno == 0);
	if (n2 > 0) {
		D u = p; for (auto& x : u) x /= std::sqrt(n2);
		X v = a.normalized(), w = a; w.normalize(); X z = algebra::normalize(a), y = a; algebra::make_normalized(y);
		for (size_t i = 0; i < n; ++i) { NEAR("normalized", v[i], u[i], 1e-9, 1e-12); NEAR("normalize", w[i], u[i], 1e-9, 1e-12); NEAR("alg_normalize", z[i], u[i], 1e-9, 1e-12); NEAR("make_normalized", y[i], u[i], 1e-9, 1e-12); }
		CHECK("normalize errno", errno == 0);
	} else {
		errno = 0; X v = a.normalized(); CHECK("normalize zero errno", errno == ERANGE); for (size_t i = 0; i < n; ++i) ISNAN("normalize zero", v[i]);
		errno = 0; X w = a; w.normalize(); CHECK("normalize zero errno", errno == ERANGE); for (size_t i = 0; i < n; ++i) ISNAN("normalize zero", w[i]);
	}
	agree("operand a unchanged", a, p); agree("operand b unchanged", b, q);
	X r = a; algebra::vec_sum(r, a, b); agree("vec_sum", r, s); r = a; algebra::vec_sum(r, b); agree("vec_sum in place", r, s);
	algebra::vec_diff(r, a, b); agree("vec_diff", r, d); r = a; algebra::vec_diff(r, b); agree("vec_diff in place", r, d);
	D t = p; for (auto& x : t) x *= 3; algebra::vec_scalmul(r, 3.0, a); agree("vec_scalmul", r, t); r = a; algebra::vec_scalmul(3.0, r); agree("vec_scalmul in place", r, t);
	r = b; algebra::vec_copy(r, a); agree("vec_copy", r, p);
	algebra::vec_zeroes(r); agree("vec_zeroes", r, D(n, 0.0));
	algebra::vec_error(r); agree("vec_error", r, D(n, NaN));
	if (n == 3) {
		D c = {p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]};
		X k = algebra::cross(a, b); agree("cross", k, c); agree("cross member", crossm(a, b), c);
		const vec<real, 3> fa = mk<vec<real, 3>>(p); const vec<real> db = mk<vec<real>>(q); agree("cross static x dynamic", fa.cross(db), c); agree("cross dynamic x static", db.cross(fa), {-c[0], -c[1], -c[2]});
	}
}
SECTION(pure_ops) {
	std::vector<double> al = {-2, 0, 1, 3};
	for (size_t n = 1; n <= 3; ++n) {
		std::vector<D> all; words(al, n, [&](const D& v) { all.push_back(v); });
		for (auto& a : all) for (auto& b : all) {
			pure<vec<real>>("vec", a, b);
			if (n == 1) pure<vec<real, 1>>("vec<1>", a, b); if (n == 2) pure<vec<real, 2>>("vec<2>", a, b); if (n == 3) pure<vec<real, 3>>("vec<3>", a, b);
		}
	}
}
// mismatched sizes: reported, NaN, nothing out of bounds
SECTION(mismatched) {
	for (size_t n = 0; n <= 4; ++n) for (size_t m = 0; m <= 4; ++m) {
		if (n == m) continue;
		if (!vf::begin("sizes %zu and %zu", n, m)) continue;
		vec<real> a(n, 1.0), b(m, 2.0), r(n, 0.0);
		errno = 0; ISNAN("dot mismatch", a.dot(b)); EQ("dot errno", errno, EINVAL);
		errno = 0; algebra::vec_sum(r, a, b); EQ("vec_sum errno", errno, EINVAL); for (unsigned i = 0; i < n; ++i) ISNAN("vec_sum mismatch", r[i]);
		errno = 0; algebra::vec_diff(r, a, b); EQ("vec_diff errno", errno, EINVAL); for (unsigned i = 0; i < n; ++i) ISNAN("vec_diff mismatch", r[i]);
		errno = 0; algebra::vec_scalmul(r, 2.0, b); EQ("vec_scalmul errno", errno, EINVAL);
		errno = 0; vec<real> s = a; algebra::vec_sum(s, b); EQ("vec_sum inplace errno", errno, EINVAL);
		errno = 0; s = a; algebra::vec_diff(s, b); EQ("vec_diff inplace errno", errno, EINVAL);
		errno = 0; s = a + b; EQ("+ errno", errno, EINVAL); EQ("+ size", s.size(), n);
		errno = 0; s = a - b; EQ("- errno", errno, EINVAL);
		CHECK("== mismatch", !(a == b)); CHECK("!= mismatch", a != b);
		if (m != 3 || n != 3) { errno = 0; vec<real> c = algebra::cross(a, b); EQ("cross errno", errno, EINVAL); EQ("cross size", c.size(), 3u); for (int i = 0; i < 3; ++i) ISNAN("cross mismatch", c[i]); errno = 0; c = a.cross(b); EQ("member cross errno", errno, EINVAL); EQ("member cross size", c.size(), 3u); for (int i = 0; i < 3; ++i) ISNAN("member cross mismatch", c[i]); }
		if (m != 3) { errno = 0; vec<real, 3> c = vec<real, 3>(1.0).cross(b); EQ("fixed cross errno", errno, EINVAL); for (int i = 0; i < 3; ++i) ISNAN("fixed cross mismatch", c[i]); }
		errno = 0; vec<real, 3> f(1.0); if (m != 3) { ISNAN("fixed dot mismatch", f.dot(b)); EQ("fixed dot errno", errno, EINVAL); CHECK("fixed ==", !(f == b)); }
	}
	for (unsigned n = 0; n <= 4; ++n) for (unsigned i = 0; i <= 5; ++i) {
		if (!vf::begin("euclidean_base(%u,%u)", i, n)) continue;
		errno = 0; vec<real> e = vec<real>::euclidean_base(i, n);
		EQ("base size", e.size(), n); EQ("base errno", errno, i < n ? 0 : EINVAL);
		for (unsigned k = 0; k < n; ++k) { if (i < n) EQ("base", e[k], k == i ? 1.0 : 0.0); else ISNAN("base bad", e[k]); }
	}
	if (vf::begin("fixed initializer list sizes")) {
		errno = 0; vec<real, 3> v({1, 2}); EQ("init errno", errno, EINVAL); for (int i = 0; i < 3; ++i) ISNAN("init short", v[i]);
		errno = 0; vec<real, 2> w({1, 2, 3}); EQ("init errno", errno, EINVAL); for (int i = 0; i < 2; ++i) ISNAN("init long", w[i]);
		errno = 0; vec<real, 3> u({1, 2, 3}); EQ("init errno", errno, 0); for (int i = 0; i < 3; ++i) EQ("init", u[i], i + 1.0);
		vec<real> m = make_vec<real>(4.0, 5.0, 6.0); EQ("make_vec size", m.size(), 3u); for (int i = 0; i < 3; ++i) EQ("make_vec", m[i], i + 4.0);
		errno = 0; vec<real, 2> z; z.resize(3); EQ("fixed resize errno", errno, EINVAL); z.resize(2);
	}
}
VF_MAIN
