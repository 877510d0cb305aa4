// Fixed-size and dynamic storage, and every element type, used together: conversions, operators, products, self-assignment.
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;

template<class T> static T val(int i, int s) { return T(((i * 7 + s * 5) % 11) - 5); }
template<> complex<> val(int i, int s) { return complex<>(((i * 7 + s * 5) % 11) - 5, ((i * 3 + s) % 7) - 3); }
#ifndef MIXED_A03
template<class T, unsigned N> static void vconv(const char* ty) {
	for (int s = 0; s < 11; ++s) {
		if (!vf::begin("vec<%s, %u> with vec<%s>, content %d", ty, N, ty, s)) continue;
		T a[N], b[N]; vec<T, N> x, y; vec<T> u(N), w(N);
		for (unsigned i = 0; i < N; ++i) { a[i] = val<T>(i, s); b[i] = val<T>(i + 3, s + 2); x[i] = u[i] = a[i]; y[i] = w[i] = b[i]; }
		errno = 0;
		vec<T> c(x), d; d = x; vec<T> e(N + 2); e = x; vec<T, N> f(u), g; g = u; vec<T, N> h(x); vec<T> k(u); vec<T> z = vec<T>(N, T(9)); z = u; vec<T> sh(1); sh = x;
		CHECK("conv_error", errno == 0);
		CHECK("conv_size", c.size() == N && d.size() == N && e.size() == N && k.size() == N && z.size() == N && sh.size() == N);
		for (unsigned i = 0; i < N; ++i) {
			CHECK("dynamic_from_fixed", c[i] == a[i] && d[i] == a[i] && e[i] == a[i] && sh[i] == a[i]);
			CHECK("fixed_from_dynamic", f[i] == a[i] && g[i] == a[i]); CHECK("copy", h[i] == a[i] && k[i] == a[i] && z[i] == a[i]);
		}
		// copies are independent of their source
		c[0] = b[0] + T(1); f[0] = b[0] + T(2); CHECK("copy_independent", x[0] == a[0] && u[0] == a[0]);
		CHECK("mixed_equality", (u == x) && (x == u) && !(u != x) && !(x != u));
		{ vec<T> q = x; q[N - 1] = q[N - 1] + T(1); CHECK("mixed_inequality", !(q == x) && q != x && !(x == q) && x != q); }
		vec<T> p1 = u + x, p2 = u - y; vec<T, N> p3 = x + y, p4 = x - y; vec<T> p5 = u + w, p6 = u - w;
		for (unsigned i = 0; i < N; ++i) {
			CHECK("mixed_sum", p1[i] == a[i] + a[i] && p3[i] == a[i] + b[i] && p5[i] == a[i] + b[i]);
			CHECK("mixed_difference", p2[i] == a[i] - b[i] && p4[i] == a[i] - b[i] && p6[i] == a[i] - b[i]);
		}
		T dt = T(0); for (unsigned i = 0; i < N; ++i) dt += a[i] * conjugate(b[i]);
		CHECK("mixed_dot", u.dot(y) == dt && x.dot(w) == dt && x.dot(y) == dt && u.dot(w) == dt && algebra::dot(x, w) == dt && u * w == dt);
		// an operand that is also the destination
		{ vec<T> q = u; q += q; vec<T> r = u; r -= r; vec<T, N> qs = x, rs = x; qs += qs; rs -= rs; vec<T> t = u; t = t; vec<T, N> ts = x; ts = ts; vec<T> m = u; algebra::vec_sum(m, m); vec<T> o = u; algebra::vec_diff(o, o);
		  for (unsigned i = 0; i < N; ++i) { CHECK("self_sum", q[i] == a[i] + a[i] && qs[i] == a[i] + a[i] && m[i] == a[i] + a[i]); CHECK("self_difference", r[i] == T(0) && rs[i] == T(0) && o[i] == T(0)); CHECK("self_assign", t[i] == a[i] && ts[i] == a[i]); } }
		{ vec<T> q = u; algebra::vec_sum(q, q, w); vec<T> r = w; algebra::vec_sum(r, u, r); vec<T> t = u; algebra::vec_diff(t, t, w); vec<T> m = w; algebra::vec_diff(m, u, m); vec<T> o = u; algebra::vec_scalmul(o, T(3), o);
		  for (unsigned i = 0; i < N; ++i) { CHECK("result_is_operand", q[i] == a[i] + b[i] && r[i] == a[i] + b[i] && t[i] == a[i] - b[i] && m[i] == a[i] - b[i] && o[i] == T(3) * a[i]); } }
		T sg = T(2); vec<T> m1 = u * sg, m2 = sg * u, n1 = -u, n2 = +u; vec<T, N> m3 = x * sg, m4 = sg * x, n3 = -x, n4 = +x;
		for (unsigned i = 0; i < N; ++i) { CHECK("scalar", m1[i] == sg * a[i] && m2[i] == sg * a[i] && m3[i] == sg * a[i] && m4[i] == sg * a[i]); CHECK("sign", n1[i] == T(-1) * a[i] && n2[i] == a[i] && n3[i] == T(-1) * a[i] && n4[i] == a[i]); }
	}
}
template<class T> static void vtypes(const char* ty) { vconv<T, 1>(ty); vconv<T, 3>(ty); vconv<T, 4>(ty); vconv<T, 33>(ty); }
SECTION(mixed_vectors) {
	vtypes<real>("real"); vconv<real, 2>("real"); vconv<real, 16>("real"); vtypes<int>("int"); vtypes<float>("float"); vtypes<complex<>>("complex");
	// the product with unit vectors, mixed storage: i x j = k and so on
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		if (!vf::begin("cross of unit vectors %d %d", i, j)) continue;
		vec<real> u(3), w(3); vec<real, 3> x, y; u[i] = x[i] = 2; w[j] = y[j] = 3; u[(i + 1) % 3] = x[(i + 1) % 3] = 5;
		double e[3] = {u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]};
		auto c1 = u.cross(w); auto c2 = u.cross(y); auto c3 = x.cross(w); auto c4 = x.cross(y);
		for (int k = 0; k < 3; ++k) { EQ("cross_mixed", c1[k], e[k]); EQ("cross_mixed", c2[k], e[k]); EQ("cross_mixed", c3[k], e[k]); EQ("cross_mixed", c4[k], e[k]); }
	}
}

#endif
#ifndef MIXED_A01
template<class T> static T mval(int i, int j, int s) { return val<T>(i * 5 + j * 3, s + i); }
template<class M> static void fillm(M& m, unsigned r, unsigned c, int s) { typedef typename std::decay<decltype(m(0, 0))>::type T; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = mval<T>(i, j, s); }
template<class M1, class M2> static bool same(const M1& a, const M2& b, unsigned r, unsigned c) { if (a.rows() != r || a.cols() != c || b.rows() != r || b.cols() != c) return false; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) if (!(a(i, j) == b(i, j))) return false; return true; }

template<class T, unsigned R, unsigned K, unsigned C> static void mprod(const char* ty) {
	for (int s = 0; s < 3; ++s) {
		if (!vf::begin("mat<%s, %u, %u> x mat<%s, %u, %u>, content %d", ty, R, K, ty, K, C, s)) continue;
		mat<T, R, K> A; mat<T, K, C> B; mat<T> DA(R, K), DB(K, C), W(R, C), S(R, K), D(R, K); fillm(A, R, K, s); fillm(DA, R, K, s); fillm(B, K, C, s + 4); fillm(DB, K, C, s + 4);
		mat<T, R, K> A2; mat<T> DA2(R, K); fillm(A2, R, K, s + 7); fillm(DA2, R, K, s + 7);
		for (unsigned i = 0; i < R; ++i) for (unsigned j = 0; j < C; ++j) { W(i, j) = T(0); for (unsigned k = 0; k < K; ++k) W(i, j) += A(i, k) * B(k, j); }
		for (unsigned i = 0; i < R; ++i) for (unsigned j = 0; j < K; ++j) { S(i, j) = A(i, j) + A2(i, j); D(i, j) = A(i, j) - A2(i, j); }
		errno = 0;
		CHECK("product_fixed_fixed", same(A * B, W, R, C)); CHECK("product_fixed_mul", same(A.mul(B), W, R, C));
		CHECK("product_dynamic_dynamic", same(DA * DB, W, R, C)); CHECK("product_dynamic_mul", same(DA.mul(DB), W, R, C));
		CHECK("product_fixed_dynamic", same(A * DB, W, R, C)); CHECK("product_fixed_mul_dynamic", same(A.mul(DB), W, R, C));
		CHECK("sum_mixed", same(A + DA2, S, R, K) && same(DA + A2, S, R, K) && same(A + A2, S, R, K) && same(DA + DA2, S, R, K));
		CHECK("difference_mixed", same(A - DA2, D, R, K) && same(DA - A2, D, R, K) && same(A - A2, D, R, K) && same(DA - DA2, D, R, K));
		{ mat<T, R, K> x = A; x += A2; mat<T> y = DA; y += DA2; CHECK("sum_assign", same(x, S, R, K) && same(y, S, R, K)); x = A; x -= A2; y = DA; y -= DA2; CHECK("difference_assign", same(x, D, R, K) && same(y, D, R, K)); }
		{ mat<T> c, d; c = A; d = A; mat<T> e(K + 1, R + 1); e = A; mat<T, R, K> f(DA), g; g = DA; mat<T> h(DA), k(1, 1); k = DA;
		  CHECK("dynamic_from_fixed", same(c, DA, R, K) && same(d, DA, R, K) && same(e, DA, R, K)); CHECK("fixed_from_dynamic", same(f, DA, R, K) && same(g, DA, R, K)); CHECK("dynamic_copy", same(h, DA, R, K) && same(k, DA, R, K));
		  c(0, 0) = c(0, 0) + T(1); f(0, 0) = f(0, 0) + T(1); CHECK("copy_independent", same(A, DA, R, K)); CHECK("inequality_mixed", !(c == A) && c != A && !(A == c) && f != DA); }
		CHECK("equality_mixed", DA == A && A == DA && !(DA != A) && !(A != DA));
		{ mat<T> x = DA; x += x; mat<T> y = DA; y -= y; mat<T> z = DA; z = z; bool ok = true; for (unsigned i = 0; i < R; ++i) for (unsigned j = 0; j < K; ++j) ok = ok && x(i, j) == A(i, j) + A(i, j) && y(i, j) == T(0) && z(i, j) == A(i, j); CHECK("self_operand", ok); }
		{ mat<T> x = DA; algebra::mat_sum(x, x, DA2); mat<T> y = DA2; algebra::mat_sum(y, DA, y); mat<T> z = DA; algebra::mat_diff(z, z, DA2); mat<T> w = DA2; algebra::mat_diff(w, DA, w); CHECK("result_is_operand", same(x, S, R, K) && same(y, S, R, K) && same(z, D, R, K) && same(w, D, R, K)); }
		// matrix times vector, all four storages
		vec<T, K> v; vec<T> dv(K); for (unsigned i = 0; i < K; ++i) v[i] = dv[i] = val<T>(i, s + 1);
		vec<T> rw(R); for (unsigned i = 0; i < R; ++i) { rw[i] = T(0); for (unsigned k = 0; k < K; ++k) rw[i] += A(i, k) * v[k]; }
		vec<T, R> r1 = A * v; vec<T, R> r2 = A.transform(v); vec<T> r3 = DA * dv; vec<T> r4 = algebra::transform(DA, dv); vec<T> r5(R); algebra::transform(r5, A, dv); vec<T> r6(R); algebra::transform(r6, DA, v);
		for (unsigned i = 0; i < R; ++i) CHECK("transform_storage", r1[i] == rw[i] && r2[i] == rw[i] && r3[i] == rw[i] && r4[i] == rw[i] && r5[i] == rw[i] && r6[i] == rw[i]);
		CHECK("transform_sizes", r3.size() == R && r4.size() == R);
		CHECK("mixed_error", errno == 0);
		{ mat<T> t = algebra::transpose(DA); mat<T, K, R> tf = algebra::transpose<mat<T, R, K>, mat<T, K, R>>(A); bool ok = t.rows() == K && t.cols() == R; for (unsigned i = 0; ok && i < R; ++i) for (unsigned j = 0; j < K; ++j) ok = ok && t(j, i) == A(i, j) && tf(j, i) == A(i, j); CHECK("transpose_storage", ok); }
	}
}
template<class T, unsigned N> static void msquare(const char* ty) {
	for (int s = 0; s < 4; ++s) {
		if (!vf::begin("mat<%s, %u, %u> in place, content %d", ty, N, N, s)) continue;
		mat<T, N, N> A, B; mat<T> DA(N, N), DB(N, N), W(N, N), Q(N, N); fillm(A, N, N, s); fillm(DA, N, N, s); fillm(B, N, N, s + 3); fillm(DB, N, N, s + 3);
		for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) { W(i, j) = Q(i, j) = T(0); for (unsigned k = 0; k < N; ++k) { W(i, j) += A(i, k) * B(k, j); Q(i, j) += A(i, k) * A(k, j); } }
		errno = 0;
		{ mat<T, N, N> x = A; x *= B; mat<T, N, N> y = A; y *= DB; mat<T> z = DA; z *= DB; mat<T> w = DA; w *= B; CHECK("product_assign", same(x, W, N, N) && same(y, W, N, N) && same(z, W, N, N) && same(w, W, N, N)); }
		{ mat<T, N, N> x = A; x *= x; mat<T> z = DA; z *= z; CHECK("square_in_place", same(x, Q, N, N) && same(z, Q, N, N)); }
		CHECK("product_dynamic_fixed", same(DA * B, W, N, N)); CHECK("product_dynamic_mul_fixed", same(DA.mul(B), W, N, N));
		{ mat<T, N, N> x = A; x.transpose(); mat<T> z = DA; z.transpose(); bool ok = true; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) ok = ok && x(i, j) == A(j, i) && z(i, j) == A(j, i); CHECK("transpose_in_place", ok); x.transpose(); z.transpose(); CHECK("transpose_twice", same(x, DA, N, N) && same(z, DA, N, N)); }
		CHECK("square_error", errno == 0);
	}
}
template<class T> static void mtypes(const char* ty) {
	mprod<T, 1, 1, 1>(ty); mprod<T, 1, 3, 2>(ty); mprod<T, 2, 1, 3>(ty); mprod<T, 2, 3, 4>(ty); mprod<T, 3, 3, 3>(ty); mprod<T, 9, 8, 7>(ty); mprod<T, 17, 3, 12>(ty);
	msquare<T, 1>(ty); msquare<T, 2>(ty); msquare<T, 3>(ty); msquare<T, 4>(ty); msquare<T, 8>(ty); msquare<T, 17>(ty);
}
template<class T> static void mshort(const char* ty) { mprod<T, 2, 3, 4>(ty); mprod<T, 9, 8, 7>(ty); msquare<T, 2>(ty); msquare<T, 5>(ty); }
SECTION(mixed_matrices) { mtypes<real>("real"); mshort<int>("int"); mshort<float>("float"); mshort<complex<>>("complex"); }
// comparisons and predicates with a tolerance of the caller: what they tolerate, per element and sign; NaN is never equal
SECTION(mixed_tolerances) {
	for (unsigned n = 1; n <= 5; ++n) for (double tol : {1e-14, 1e-12, 1e-6, 0.01, 1.0, 100.0}) for (unsigned p = 0; p < n; ++p) for (unsigned q = 0; q < n; ++q) for (double f : {-2.0, -1.5, -0.5, 0.5, 1.5, 2.0}) {
		if (!vf::begin("order %u tolerance %g, element (%u, %u) off by %g of it", n, tol, p, q, f)) continue;
		mat<real> I(n, n), A(n, n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) I(i, j) = A(i, j) = i == j ? 1 : 0;
		const bool in = std::fabs(f) < 1; A(p, q) += f * tol; mat<real> B = A;
		CHECK("mat_equals tolerance", algebra::mat_equals(A, I, tol) == in && algebra::mat_equals(I, A, tol) == in);
		CHECK("is_diagonal tolerance", algebra::is_diagonal(A, tol) == (p == q || in));
		CHECK("is_symmetric tolerance", algebra::is_symmetric(A, tol) == (p == q || in));
		CHECK("is_lower_triangular tolerance", algebra::is_lower_triangular(A, tol) == (p >= q || in));
		CHECK("is_upper_triangular tolerance", algebra::is_upper_triangular(A, tol) == (p <= q || in));
		mat<real> Z(n, n); Z(p, q) = f * tol;
		NEAR("density tolerance", algebra::density(Z, tol), in ? 0.0 : 1.0 / (n * n), 1e-15, 1e-15); NEAR("sparsity tolerance", algebra::sparsity(Z, tol), in ? 1.0 : 1 - 1.0 / (n * n), 1e-15, 1e-15);
		A(p, q) = std::nan(""); B(p, q) = std::nan("");
		CHECK("NaN is not equal", !(A == B) && A != B && !(A == I) && !(I == A) && !algebra::mat_equals(A, B, 1e300));
		vec<real> u(n), w(n); u[p] = w[p] = std::nan(""); CHECK("NaN vector is not equal", !(u == w) && u != w);
	}
}
// products with transposes do not conjugate; the Hermitian adjoint does
SECTION(mixed_complex) {
	typedef complex<> C;
	for (unsigned r = 1; r <= 4; ++r) for (unsigned k = 1; k <= 4; ++k) for (unsigned c = 1; c <= 4; ++c) for (int s = 0; s < 3; ++s) {
		if (!vf::begin("complex %u x %u and %u x %u, content %d", r, k, k, c, s)) continue;
		mat<C> A(r, k), B(k, c), W(r, c); fillm(A, r, k, s); fillm(B, k, c, s + 2);
		for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { W(i, j) = C(0, 0); for (unsigned m = 0; m < k; ++m) W(i, j) += A(i, m) * B(m, j); }
		mat<C> At(k, r), Bt(c, k), Ah(k, r); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < k; ++j) { At(j, i) = A(i, j); Ah(j, i) = C(A(i, j).Re(), -A(i, j).Im()); } for (unsigned i = 0; i < k; ++i) for (unsigned j = 0; j < c; ++j) Bt(j, i) = B(i, j);
		errno = 0;
		CHECK("transpose complex", same(algebra::transpose(A), At, k, r)); CHECK("hermitian complex", same(algebra::hermitian(A), Ah, k, r));
		CHECK("transpose product complex", same(algebra::mat_transpose_mul(At, B), W, r, c)); CHECK("product transpose complex", same(algebra::mat_mul_transpose(A, Bt), W, r, c)); CHECK("product complex", same(algebra::mat_mul(A, B), W, r, c));
		{ mat<C> d(k, r); algebra::transpose(d, A); CHECK("transpose into complex", same(d, At, k, r)); mat<C> e(k, r); algebra::hermitian(e, A); CHECK("hermitian into complex", same(e, Ah, k, r)); }
		if (r == k) { mat<C> d = A; algebra::make_hermitian(d); CHECK("make_hermitian complex", same(d, Ah, k, r)); mat<C> e = A; algebra::make_transposed(e); CHECK("make_transposed complex", same(e, At, k, r)); C tr(0, 0); for (unsigned i = 0; i < r; ++i) tr += A(i, i); CHECK("trace complex", algebra::trace(A) == tr); }
		CHECK("complex errno", errno == 0);
	}
}
#endif
VF_MAIN
