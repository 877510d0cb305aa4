// Fast Fourier transform against the definition in extended precision.
#include <complex>
#include "common.h"
#include "enum.h"
#include "theoretica.h"
using namespace theoretica;
typedef complex<real> Z;
typedef std::complex<long double> CL;
static const long double PIL = 3.14159265358979323846264338327950288L;
static CL unit(unsigned long k, unsigned long N) { long double a = 2 * PIL * (long double) (k % N) / N; return CL(cosl(a), sinl(a)); }
static std::vector<CL> dft(const std::vector<CL>& x, bool inv) {
	unsigned long N = x.size(); std::vector<CL> r(N), u(N);
	for (unsigned long j = 0; j < N; ++j) u[j] = inv ? unit(j, N) : std::conj(unit(j, N));
	for (unsigned long k = 0; k < N; ++k) { CL s = 0; for (unsigned long j = 0; j < N; ++j) if (x[j] != CL(0)) s += x[j] * u[k * j % N]; r[k] = inv ? s / (long double) N : s; }
	return r;
}
template<class V> static V mk(const std::vector<CL>& x) { V v; v.resize(x.size()); for (unsigned i = 0; i < x.size(); ++i) v[i] = Z((real) x[i].real(), (real) x[i].imag()); return v; }
static double scale(const std::vector<CL>& x) { long double m = 0; for (auto& z : x) m += std::abs(z); return (double) m + 1e-300; }
template<class V> static void against(const char* tag, const V& got, const std::vector<CL>& want, double sc) {
	CHECKF(std::string(tag) + "_size", got.size() == want.size(), "size %zu instead of %zu", (size_t) got.size(), want.size());
	for (size_t i = 0; i < want.size() && i < got.size(); ++i) {
		CL g(got[i].Re(), got[i].Im()); ++vf::S().checks;
		vf::state(vf::mix(vf::hd(got[i].Re()), vf::mix(vf::hd(got[i].Im()), i)));
		if (!(std::abs(g - want[i]) <= 1e-10 * sc)) vf::fail(tag, "element %zu is (%.12g, %.12g) instead of (%.12g, %.12g)", i, (double) g.real(), (double) g.imag(), (double) want[i].real(), (double) want[i].imag());
	}
}
// forward, inverse, round trips, Parseval, input untouched
template<class V> static void whole(const std::vector<CL>& x) {
	const V v = mk<V>(x); const V v0 = v; double sc = scale(x);
	errno = 0;
	V f = signal::fft<V, V>(v), g = signal::fft<V, V>(v, true), h = signal::ifft<V, V>(v);
	CHECK("spurious_error", errno == 0);
	auto F = dft(x, false), G = dft(x, true);
	against("fft", f, F, sc); against("fft_inverse_flag", g, G, sc); against("ifft", h, G, sc);
	against("ifft_of_fft", signal::ifft<V, V>(f), x, sc); against("fft_of_ifft", signal::fft<V, V>(h), x, sc);
	for (size_t i = 0; i < x.size(); ++i) CHECK("input_changed", v[i].Re() == v0[i].Re() && v[i].Im() == v0[i].Im());
	long double a = 0, b = 0; for (auto& z : x) a += std::norm(z); for (size_t i = 0; i < f.size(); ++i) b += (long double) f[i].Re() * f[i].Re() + (long double) f[i].Im() * f[i].Im();
	NEAR("parseval", b, a * x.size(), 1e-10, 1e-12);
}
static const CL AL[] = {CL(0), CL(1), CL(-2, 0), CL(0, 3), CL(1, -1)};
SECTION(f01_words) {
	for (unsigned N = 1; N <= 8; N *= 2) {
		const unsigned A = N <= 4 ? 5 : (vf::thorough() ? 4 : 3);
		unsigned long tot = 1; for (unsigned i = 0; i < N; ++i) tot *= A;
		for (unsigned long w = 0; w < tot; ++w) {
			std::vector<CL> x; unsigned long q = w; for (unsigned i = 0; i < N; ++i) { x.push_back(AL[q % A]); q /= A; }
			if (vf::begin("N=%u word %lu", N, w)) whole<cvec>(x);
		}
	}
}
// linearity makes the impulses decide every vector of their size
SECTION(f01_impulses) {
	for (unsigned N = 1; N <= (vf::thorough() ? 512u : 128u); N *= 2) for (unsigned j = 0; j < N; ++j) for (int c = 0; c < 2; ++c) {
		if (!vf::begin("N=%u impulse %u times %s", N, j, c ? "i" : "1")) continue;
		std::vector<CL> x(N, CL(0)); x[j] = c ? CL(0, 1) : CL(1); whole<cvec>(x);
	}
}
SECTION(f01_large) {
	for (unsigned p = 0; p <= (vf::thorough() ? 12u : 10u); ++p) for (int k = 0; k < 4; ++k) {
		const unsigned N = 1u << p;
		if (!vf::begin("N=%u signal %d", N, k)) continue;
		std::vector<CL> x(N); for (unsigned i = 0; i < N; ++i) x[i] = k == 0 ? CL(i % 7, (i * i) % 5) : k == 1 ? CL(1) : k == 2 ? CL(i % 2 ? -1 : 1, i) : CL(1e8L * (i % 3), -1e-3L * i);
		whole<cvec>(x);
	}
	for (unsigned p = 13; p <= (vf::thorough() ? 20u : 16u); ++p) {
		const unsigned N = 1u << p;
		if (!vf::begin("N=%u impulse and round trip", N)) continue;
		for (unsigned j : {0u, 1u, 2u, N / 2, N / 2 + 1, N - 1}) {
			std::vector<CL> x(N, CL(0)), w(N); x[j] = 1; for (unsigned long i = 0; i < N; ++i) w[i] = std::conj(unit(i * j, N));
			cvec v = mk<cvec>(x), f = signal::fft(v);
			double worst = 0; for (unsigned i = 0; i < N; ++i) worst = std::max(worst, (double) std::abs(CL(f[i].Re(), f[i].Im()) - w[i]));
			CHECKF("fft_large", worst < 1e-8, "N=%u impulse %u: largest deviation %g", N, j, worst);
			cvec b = signal::ifft(f); worst = 0; for (unsigned i = 0; i < N; ++i) worst = std::max(worst, (double) std::abs(CL(b[i].Re(), b[i].Im()) - x[i]));
			CHECKF("round_trip_large", worst < 1e-8, "N=%u impulse %u: largest deviation %g", N, j, worst);
		}
	}
}
template<unsigned N> static void fixed_size() {
	for (unsigned j = 0; j < N; ++j) {
		if (!vf::begin("static size %u impulse %u", N, j)) continue;
		std::vector<CL> x(N, CL(0)); x[j] = CL(2, -1);
		vec<Z, N> v; for (unsigned i = 0; i < N; ++i) v[i] = Z((real) x[i].real(), (real) x[i].imag());
		against("fft_static", signal::fft<vec<Z, N>, vec<Z, N>>(v), dft(x, false), 3);
		against("ifft_static", signal::ifft<vec<Z, N>, vec<Z, N>>(v), dft(x, true), 3);
	}
}
SECTION(f01_static) { fixed_size<1>(); fixed_size<2>(); fixed_size<4>(); fixed_size<8>(); fixed_size<16>(); }
// convolution theorem and shift theorem on all pairs of impulses
SECTION(f01_theorems) {
	for (unsigned N = 2; N <= 16; N *= 2) for (unsigned a = 0; a < N; ++a) for (unsigned b = 0; b < N; ++b) {
		if (!vf::begin("convolution of impulses %u and %u, N=%u", a, b, N)) continue;
		std::vector<CL> x(N, CL(0)), y(N, CL(0)), w(N, CL(0)); x[a] = 1; x[(a + 1) % N] += CL(0, 2); y[b] = 3;
		for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) w[(i + j) % N] += x[i] * y[j];
		cvec f = signal::fft(mk<cvec>(x)), g = signal::fft(mk<cvec>(y)); for (unsigned i = 0; i < N; ++i) f[i] *= g[i];
		against("convolution", signal::ifft(f), w, 10);
	}
}
SECTION(f01_sizes) {
	for (unsigned n = 0; n <= 300; ++n) {
		if (n && (n & (n - 1)) == 0) continue;
		if (!vf::begin("size %u", n)) continue;
		std::vector<CL> x(n, CL(1));
		for (int inv = 0; inv < 2; ++inv) {
			errno = 0; cvec r = inv ? signal::ifft(mk<cvec>(x)) : signal::fft(mk<cvec>(x));
			CHECKF("size_reported", n == 0 || errno != 0, "no error for size %u", n);
			CHECK("size_kept", r.size() == n);
			for (unsigned i = 0; i < n; ++i) CHECK("size_nan", r[i].Re() != r[i].Re());
		}
	}
}
SECTION(f01_bits) {
	for (unsigned m = 0; m <= (vf::thorough() ? 16u : 11u); ++m) for (unsigned extra = 0; extra < 4; ++extra) {
		if (!vf::begin("bit reversal of %u bits, %u more elements", m, extra)) continue;
		const unsigned N = 1u << m; vec<real> v; v.resize(N + extra); for (unsigned i = 0; i < N + extra; ++i) v[i] = i;
		errno = 0; swap_bit_reverse(v, m); CHECK("bits_error", errno == 0);
		for (unsigned i = 0; i < N + extra; ++i) { unsigned j = i; if (i < N) { j = 0; for (unsigned k = 0; k < m; ++k) if (i >> k & 1) j |= 1u << (m - 1 - k); } EQ("bits", v[i], (real) j); }
		swap_bit_reverse(v, m); for (unsigned i = 0; i < N + extra; ++i) EQ("bits_involution", v[i], (real) i);
	}
	for (unsigned n = 0; n < 70; ++n) for (unsigned m = 0; m <= 10; ++m) if ((1u << m) > n && vf::begin("%u elements, %u bits", n, m)) {
		vec<real> v; v.resize(n); for (unsigned i = 0; i < n; ++i) v[i] = i; errno = 0; swap_bit_reverse(v, m); CHECK("bits_refused", errno != 0); for (unsigned i = 0; i < n; ++i) EQ("bits_unchanged", v[i], (real) i);
	}
}
VF_MAIN
