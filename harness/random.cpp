// Random numbers.  The generator is the only source of nondeterminism of this part of the library:
// it is replaced by one that answers from a script and every script of a bounded length is explored
// (the tree of the generator's answers), or by one that runs through a complete grid of answers.
#include <cmath>
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "statistics/errorprop.h"
using namespace theoretica;
typedef long double L;
typedef uint64_t u64;
typedef unsigned __int128 u128;
#define REFUSED(tag, e) do { errno = 0; ISNAN(tag, e); CHECKF(std::string(tag) + "_errno", errno != 0, "no error reported"); } while (0)

// ---------------------------------------------------------------- reference generators
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
struct Ref {                       // one generator as its published recurrence
	int kind; u64 x; u64 s[4];
	u64 next() {
		switch (kind) {
		case 0: return x = (u64) (((u128) s[0] * x + s[1]) % s[2]);
		case 1: { u64 r = rotl(s[0] + s[3], 23) + s[0], t = s[1] << 17;
			s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return x = r; }
		case 2: { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return x = z ^ (z >> 31); }
		case 3: { s[0] += s[1]; u128 p = (u128) (s[0] ^ s[2]) * s[0]; return x = (u64) p ^ (u64) (p >> 64); }
		default: { u64 v = x + s[0]; u128 p = (u128) v * v; return x = (u64) (p >> 32); }
		}
	}
};
static u64 mixed(u64 x) { Ref r{2, x, {}}; return r.next(); }
static Ref ref(int kind, u64 seed) {
	Ref r{kind, seed ? seed : 1, {0, 0, 0, 0}};
	if (kind == 0) { r.s[0] = 48271; r.s[2] = 2147483647; }
	if (kind == 1) { u64 v = r.x; for (int i = 0; i < 4; ++i) r.s[i] = v = mixed(v); r.x = 0; }
	if (kind == 3) { r.s[0] = r.x; r.s[1] = 2549536629329ull; r.s[2] = 136137137; r.x = 0; }
	if (kind == 4) { r.s[0] = 765872292751861ull; if (!seed) r.x = mixed(765872292751861ull); }
	return r;
}
static PRNG make(int kind, u64 seed) {
	switch (kind) {
	case 0: return PRNG::linear_congruential(seed);
	case 1: return PRNG::xoshiro(seed);
	case 2: return PRNG::splitmix64(seed);
	case 3: return PRNG::wyrand(seed);
	default: return PRNG::middlesquare(seed);
	}
}
static const char* GEN[] = {"congruential", "xoshiro", "splitmix64", "wyrand", "middlesquare"};
static const std::vector<u64> BITS = {0, 1, 2, 0x7fffffff, 0x100000000ull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x0123456789abcdefull};
#define U64(tag, got, want) do { ++vf::S().checks; u64 g_ = (got), w_ = (want); vf::state(vf::mix(g_, __LINE__)); \
	if (g_ != w_) vf::fail(tag, "got %llu, expected %llu (%s)", (unsigned long long) g_, (unsigned long long) w_, #got); } while (0)

SECTION(r01_functions) {
	words(BITS, 4, [&](const std::vector<u64>& w) {
		if (!vf::begin("xoshiro state %llx %llx %llx %llx", (unsigned long long) w[0], (unsigned long long) w[1], (unsigned long long) w[2], (unsigned long long) w[3])) return;
		std::vector<u64> st = w; Ref r{1, 0, {w[0], w[1], w[2], w[3]}};
		u64 a = w[0], b = w[1], c = w[2], d = w[3];
		for (int i = 0; i < 6; ++i) {
			u64 e = r.next();
			U64("xoshiro", randgen_xoshiro(7, st), e);
			U64("xoshiro_direct", randgen_xoshiro(a, b, c, d), e);
			for (int k = 0; k < 4; ++k) U64("xoshiro_state", st[k], r.s[k]);
		}
	});
	words(BITS, 3, [&](const std::vector<u64>& w) {
		if (!vf::begin("wyrand state %llx %llx %llx", (unsigned long long) w[0], (unsigned long long) w[1], (unsigned long long) w[2])) return;
		std::vector<u64> st = w; Ref r{3, 0, {w[0], w[1], w[2], 0}}; u64 s = w[0];
		for (int i = 0; i < 6; ++i) { u64 e = r.next(); U64("wyrand", randgen_wyrand(5, st), e); U64("wyrand_direct", randgen_wyrand(s, w[1], w[2]), e); }
	});
	words(BITS, 2, [&](const std::vector<u64>& w) {
		if (!vf::begin("middle-square %llx offset %llx", (unsigned long long) w[0], (unsigned long long) w[1])) return;
		std::vector<u64> st = {w[1]}, none; Ref r{4, w[0], {w[1]}}, q{2, w[0], {}};
		u64 x = w[0], y = w[0];
		for (int i = 0; i < 8; ++i) {
			U64("middlesquare_direct", randgen_middlesquare(x, w[1]), (Ref{4, x, {w[1]}}.next()));
			x = randgen_middlesquare(x, st); U64("middlesquare", x, r.next());
			U64("splitmix_direct", randgen_splitmix64(y), (Ref{2, y, {}}.next()));
			y = randgen_splitmix64(y, none); U64("splitmix", y, q.next());
		}
	});
	const std::vector<u64> small = {0, 1, 2, 3, 7, 16, 48271, 65536, 2147483646, 2147483647};
	words(small, 4, [&](const std::vector<u64>& w) {
		const u64 x = w[0], a = w[1], c = w[2], m = w[3];
		if (m == 0 || a > m || c > m) return;
		if (!vf::begin("congruential x=%llu a=%llu c=%llu m=%llu", (unsigned long long) x, (unsigned long long) a, (unsigned long long) c, (unsigned long long) m)) return;
		std::vector<u64> st = {a, c, m}; Ref r{0, x, {a, c, m}}; u64 y = x;
		errno = 0;
		U64("congruential_direct", randgen_congruential(x, a, c, m), (u64) (((u128) a * x + c) % m));
		for (int i = 0; i < 5; ++i) { y = randgen_congruential(y, st); U64("congruential", y, r.next()); }
		CHECK("congruential_error", errno == 0);
		if (a == 48271 && m == 2147483647) { if (c == 0) { U64("congruential_default", randgen_congruential(x), (u64) ((u128) a * x % m)); U64("congruential_default2", randgen_congruential(x, a), (u64) ((u128) a * x % m)); } U64("congruential_default3", randgen_congruential(x, a, c), (u64) (((u128) a * x + c) % m)); }
	});
	// factories without arguments use seed 1
	if (vf::begin("default seeds")) {
		PRNG g[] = {PRNG::linear_congruential(), PRNG::xoshiro(), PRNG::splitmix64(), PRNG::wyrand()};
		for (int k = 0; k < 4; ++k) { Ref r = ref(k, 1); for (int i = 0; i < 5; ++i) U64("default_seed", g[k](), r.next()); }
	}
}
// all words of draws and parameter changes
SECTION(r01_parameters) {
	for (u64 s : std::vector<u64>{0, 1, 77}) words_upto(std::vector<int>{0, 1, 2, 3, 4, 5}, 1, vf::thorough() ? 6 : 5, [&](const std::vector<int>& w) {
		if (!vf::begin("congruential seed %llu parameter changes %s", (unsigned long long) s, show(w).c_str())) return;
		PRNG g(randgen_congruential, s, {5, 3, 64}); Ref r{0, s, {5, 3, 64}}; std::vector<u64> p = {5, 3, 64}; bool mid = false;
		errno = 0;
		for (int o : w) {
			switch (o) {
			case 0: U64("step", g(), r.next()); break;
			case 1: g.set_param(0, 9); p[0] = 9; break;
			case 2: g.set_param(1, 7); p[1] = 7; break;
			case 3: g.set_param(2, 101); p[2] = 101; break;
			case 4: g.set_param({17, 11, 128}); p = {17, 11, 128}; break;
			case 5: mid = !mid; if (mid) { g.set_function(randgen_splitmix64); r.kind = 2; } else { g.set_function(randgen_congruential); g.seed(s); r.kind = 0; r.x = s; } break;
			}
			for (int i = 0; i < 3; ++i) r.s[i] = p[i];
			CHECK("parameters_kept", g.get_param() == p);
			CHECK("function_kept", g.get_function() == (mid ? (pseudorandom_function) randgen_splitmix64 : (pseudorandom_function) randgen_congruential));
		}
		U64("after_change", g(), r.next()); CHECK("change_error", errno == 0);
	});
}
SECTION(r01_errors) {
	pseudorandom_function f[] = {randgen_congruential, randgen_xoshiro, randgen_wyrand, randgen_middlesquare};
	const size_t need[] = {3, 4, 3, 1};
	for (int k = 0; k < 4; ++k) for (size_t n = 0; n <= 6; ++n) for (u64 x : BITS) {
		if (!vf::begin("wrapper %d state size %zu x=%llx", k, n, (unsigned long long) x)) continue;
		std::vector<u64> st(n, 5);
		errno = 0;
		u64 r = f[k](x, st);
		if (n == need[k]) CHECK("state_accepted", errno == 0);
		else { CHECK("state_refused", errno == EINVAL); U64("refused_value", r, 0); EQ("state_size", st.size(), n); }
		PRNG g(f[k], x, st); errno = 0; g();
		CHECK("prng_errno", (errno == 0) == (n == need[k]));
	}
	for (u64 a : {0, 1, 5}) for (u64 c : {0, 1, 5}) for (u64 m : {0, 1, 4, 5, 9}) {
		if (!vf::begin("congruential parameters a=%d c=%d m=%d", (int) a, (int) c, (int) m)) continue;
		std::vector<u64> st = {a, c, m};
		errno = 0; u64 r = randgen_congruential(3, st);
		if (m == 0 || a > m || c > m) { CHECK("parameters_refused", errno == EINVAL); U64("parameters_refused_value", r, 0); }
		else { CHECK("parameters_accepted", errno == 0); U64("parameters", r, (a * 3 + c) % m); }
	}
}
// all operation words on one generator, against its recurrence
SECTION(r01_class) {
	const std::vector<int> ops = {0, 1, 2, 3, 4, 5, 6, 7, 8};
	for (int k = 0; k < 5; ++k) for (u64 seed : std::vector<u64>{0, 1, 2, 12345, 2147483646, 0x8000000000000001ull})
		words_upto(ops, 1, vf::thorough() ? 5 : 4, [&](const std::vector<int>& w) {
			if (k == 0 && seed >= 2147483647) return;     // seeds of the congruential generator are residues
			if (!vf::begin("%s seed %llu ops %s", GEN[k], (unsigned long long) seed, show(w).c_str())) return;
			PRNG g = make(k, seed); Ref r = ref(k, seed);
			errno = 0; bool stepped = false;
			for (int o : w) {
				u64 v = 0;
				switch (o) {
				case 0: U64("next", g.next(), r.next()); stepped = true; break;
				case 1: U64("call", g(), r.next()); stepped = true; break;
				case 2: g >> v; U64("stream", v, r.next()); stepped = true; break;
				case 3: g.discard(3); r.next(); r.next(); r.next(); stepped = true; break;
				case 4: g.discard(0); break;
				case 5: g.seed(99); r = ref(k, 99); stepped = false; break;
				case 6: { PRNG h = g; Ref q = r; for (int i = 0; i < 3; ++i) U64("copy", h(), q.next()); break; }
				case 7: { PRNG h = make(k, 4242); h(); h = g; h(); u64 u; g >> u; U64("assigned", u, r.next()); U64("assigned_last", h.last(), u); stepped = true; break; }
				case 8: { PRNG h(g.get_function(), g.last(), g.get_param()); Ref q = r; for (int i = 0; i < 3; ++i) U64("rebuilt", h(), q.next()); break; }
				}
				if (stepped) U64("last", g.last(), r.x);
			}
			CHECK("error", errno == 0);
			U64("after", g(), r.next());
		});
	for (int k = 0; k < 5; ++k) for (u64 seed = 0; seed < (vf::thorough() ? 200000u : 4000u); ++seed) {
		if (!vf::begin("%s sequence of seed %llu", GEN[k], (unsigned long long) seed)) continue;
		PRNG g = make(k, seed), h = make(k, seed); Ref r = ref(k, seed);
		for (int i = 0; i < 12; ++i) { u64 e = r.next(); U64("sequence", g(), e); U64("determinism", h(), e); }
		if (k == 1) { PRNG d(seed); Ref q = ref(1, seed); for (int i = 0; i < 4; ++i) U64("default", d(), q.next()); }
		PRNG s = make(k, 777); s(); s(); s.seed(seed ? seed : 1); Ref q = ref(k, seed ? seed : 1);
		for (int i = 0; i < 4; ++i) U64("reseeded", s(), q.next());
	}
	for (u64 s : BITS) for (u64 p1 : BITS) for (u64 p2 : BITS) if (s && p2) {
		if (!vf::begin("wyrand factory %llx %llx %llx", (unsigned long long) s, (unsigned long long) p1, (unsigned long long) p2)) continue;
		PRNG g = PRNG::wyrand(s, p1, p2); Ref r{3, 0, {s, p1, p2, 0}};
		for (int i = 0; i < 5; ++i) U64("wyrand_factory", g(), r.next());
		g.seed(31); Ref q{3, 0, {31, p1, p2, 0}};
		for (int i = 0; i < 5; ++i) U64("wyrand_reseeded", g(), q.next());
	}
	words(BITS, 4, [&](const std::vector<u64>& w) {
		if (!vf::begin("xoshiro factory %llx %llx %llx %llx", (unsigned long long) w[0], (unsigned long long) w[1], (unsigned long long) w[2], (unsigned long long) w[3])) return;
		PRNG g = PRNG::xoshiro(w); Ref r{1, 0, {w[0], w[1], w[2], w[3]}};
		for (int i = 0; i < 4; ++i) U64("xoshiro_factory", g(), r.next());
	});
	for (u64 s : BITS) for (u64 o : BITS) if (s && o) {
		if (!vf::begin("middlesquare factory %llx %llx", (unsigned long long) s, (unsigned long long) o)) continue;
		PRNG g = PRNG::middlesquare(s, o); Ref r{4, s, {o}};
		for (int i = 0; i < 6; ++i) U64("middlesquare_factory", g(), r.next());
	}
}
// two generators used in every interleaving do not disturb each other
SECTION(r01_interleave) {
	for (int ka = 0; ka < 5; ++ka) for (int kb = 0; kb < 5; ++kb)
		words(std::vector<int>{0, 1, 2, 3}, vf::thorough() ? 7 : 5, [&](const std::vector<int>& w) {
			if (!vf::begin("%s and %s schedule %s", GEN[ka], GEN[kb], show(w).c_str())) return;
			PRNG a = make(ka, 11), b = make(kb, 12); Ref ra = ref(ka, 11), rb = ref(kb, 12);
			for (int o : w) switch (o) {
				case 0: U64("first", a(), ra.next()); break;
				case 1: U64("second", b(), rb.next()); break;
				case 2: a.seed(5); ra = ref(ka, 5); break;
				case 3: b.discard(2); rb.next(); rb.next(); break;
			}
			U64("first_end", a(), ra.next()); U64("second_end", b(), rb.next());
		});
}
// the multiplicative congruential generator visits every residue once (complete state space)
SECTION(r01_period) {
	const u64 M = 2147483647;
	PRNG g = PRNG::linear_congruential(1);
	const u64 total = vf::thorough() ? M - 1 : 20000000;
	u64 done = 0, bad = 0, early = 0;
	while (done < total) {
		if (!vf::begin("steps from %llu", (unsigned long long) done)) { return; }
		for (u64 i = 0; i < 1000000 && done < total; ++i) { u64 v = g(); ++done; bad += (v == 0 || v >= M); early += (v == 1 && done < M - 1); }
		++vf::S().checks; vf::state(g.last());
	}
	if (bad) vf::fail("period_range", "%llu values outside 1..m-1", (unsigned long long) bad);
	if (early) vf::fail("period_short", "cycle shorter than m-1");
	if (vf::thorough()) U64("period_closed", g.last(), 1);
}

// ---------------------------------------------------------------- scripted generator
static const u64 PREC = STATISTICS_RAND_PREC;
struct Cut {};
struct Script { const std::vector<u64>* ans; std::vector<size_t> ix; size_t pos = 0, depth = 64; };
static Script* SC[4];
static u64 scripted(u64, std::vector<u64>& id) {
	Script& s = *SC[id[0]];
	if (s.pos >= s.depth) throw Cut();
	if (s.pos == s.ix.size()) s.ix.push_back(0);
	return (*s.ans)[s.ix[s.pos++]];
}
static PRNG scripted_prng(int id) { return PRNG(scripted, 0, {(u64) id}); }
// run f on every path of the tree of answers; f gets the number of answers consumed (0 when cut)
template<class F> static void tree(const std::vector<u64>& ans, size_t depth, F f) {
	Script s; s.ans = &ans; s.depth = depth; SC[0] = &s;
	for (;;) {
		s.pos = 0;
		bool cut = false;
		f(s, cut);
		s.ix.resize(s.pos);
		while (!s.ix.empty()) { if (++s.ix.back() < ans.size()) break; s.ix.pop_back(); }
		if (s.ix.empty()) return;
	}
}
// the answer that is u in [0,1) both by remainder and by leading bits
static u64 answer(double u, int low = -1) { u64 n = (u64) (u * (double) PREC); if (low >= 0) n = (n & ~1ull) | (u64) low; return (n << 33) | n; }
static double value(u64 a) { return (double) (a % PREC) / (double) PREC; }
static std::vector<u64> grid(int m, bool parity = false) {
	std::vector<u64> r;
	for (int k = 0; k < m; ++k) { double u = (k + 0.5) / m; if (parity) { r.push_back(answer(u, 0)); r.push_back(answer(u, 1)); } else r.push_back(answer(u)); }
	return r;
}
static std::string path(const Script& s) { std::string r; char b[32]; for (size_t i = 0; i < s.pos; ++i) { snprintf(b, sizeof b, "%s%.6g", i ? "," : "", value((*s.ans)[s.ix[i]])); r += b; } return r; }
// largest distance between the distribution of the values (equal weights) and a distribution function
template<class F> static double ks(std::vector<double> v, F cdf) {
	std::sort(v.begin(), v.end());
	double d = 0; const double n = v.size();
	for (size_t i = 0; i < v.size(); ++i) {
		size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[i]) ++j;
		double F0 = cdf(v[i]);
		d = std::max(d, std::max(std::fabs(i / n - F0), std::fabs((j + 1) / n - F0)));
		i = j;
	}
	return d;
}
static double gauss(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
#define KS(tag, v, cdf, tol) do { ++vf::S().checks; bool nan_ = false; for (double a_ : v) if (a_ != a_) nan_ = true; \
	double d_ = nan_ ? 2 : ks(v, cdf); if (!(d_ <= (tol))) vf::fail(tag, "distribution differs by %.6g (allowed %.6g, %zu paths)", d_, (double) (tol), v.size()); } while (0)

typedef std::vector<real> V;
struct Dist { const char* name; std::function<real(const V&, PRNG&)> f; std::vector<std::function<real(const V&, PRNG&)>> same; std::vector<V> par; std::function<double(const V&, double)> cdf; bool parity; };
static std::vector<Dist> dists() {
	typedef const V& P;
	const std::vector<V> loc = {{0, 1}, {-2, 0.5}, {3, 2}, {10, 0.01}}, sc = {{0.25}, {1}, {3}};
	std::vector<Dist> d;
	d.push_back({"uniform", [](P p, PRNG& g) { return rand_uniform(p[0], p[1], g); },
		{[](P p, PRNG& g) { return rand_uniform(p, g); }, [](P p, PRNG& g) { return pdf_sampler::uniform(p[0], p[1], g).next(); }, [](P p, PRNG& g) { return pdf_sampler::uniform(p[0], p[1], g)(); }},
		{{0, 1}, {-1, 1}, {2, 7}, {-5, -4}}, [](P p, double x) { return (x - p[0]) / (p[1] - p[0]); }, false});
	d.push_back({"exponential", [](P p, PRNG& g) { return rand_exponential(p[0], g); },
		{[](P p, PRNG& g) { return rand_exponential(p, g); }, [](P p, PRNG& g) { return pdf_sampler::exponential(p[0], g).next(); }},
		sc, [](P p, double x) { return x <= 0 ? 0.0 : 1 - std::exp(-p[0] * x); }, false});
	d.push_back({"rayleigh", [](P p, PRNG& g) { return rand_rayleigh(p[0], g); },
		{[](P p, PRNG& g) { return rand_rayleigh(p, g); }, [](P p, PRNG& g) { return pdf_sampler::rayleigh(p[0], g).next(); }},
		sc, [](P p, double x) { return x <= 0 ? 0.0 : 1 - std::exp(-x * x / (2 * p[0] * p[0])); }, false});
	d.push_back({"cauchy", [](P p, PRNG& g) { return rand_cauchy(p[0], p[1], g); },
		{[](P p, PRNG& g) { return rand_cauchy(p, g); }, [](P p, PRNG& g) { return pdf_sampler::cauchy(p[0], p[1], g).next(); }},
		loc, [](P p, double x) { return 0.5 + std::atan((x - p[0]) / p[1]) / M_PI; }, false});
	d.push_back({"pareto", [](P p, PRNG& g) { return rand_pareto(p[0], p[1], g); },
		{[](P p, PRNG& g) { return rand_pareto(p, g); }, [](P p, PRNG& g) { return pdf_sampler::pareto(p[0], p[1], g).next(); }},
		{{1, 1}, {2, 3}, {0.5, 0.75}, {3, 2}}, [](P p, double x) { return x <= p[0] ? 0.0 : 1 - std::pow(p[0] / x, p[1]); }, false});
	d.push_back({"laplace", [](P p, PRNG& g) { return rand_laplace(p[0], p[1], g); },
		{[](P p, PRNG& g) { return rand_laplace(p, g); }, [](P p, PRNG& g) { return pdf_sampler::laplace(p[0], p[1], g).next(); }},
		loc, [](P p, double x) { double z = (x - p[0]) / p[1]; return z < 0 ? 0.5 * std::exp(z) : 1 - 0.5 * std::exp(-z); }, true});
	return d;
}
// every answer of a grid: the values have the target distribution; the other forms agree on every path
SECTION(r02_inverse) {
	for (auto& d : dists()) for (auto& p : d.par) for (int m : {1, 2, 3, 8, 64, 500}) {
		if (d.parity && m > 64) continue;
		if (!vf::begin("%s theta %s, %d answers per draw", d.name, show(p).c_str(), m)) continue;
		const std::vector<u64> a = grid(m, d.parity);
		std::vector<double> v; std::set<std::string> seen;
		errno = 0;
		tree(a, 4, [&](Script& s, bool&) {
			PRNG g = scripted_prng(0); double x = d.f(p, g); v.push_back(x);
			vf::state(vf::mix(vf::hd(x), (u64) d.name[0]));
			size_t used = s.pos;
			for (size_t k = 0; k < d.same.size(); ++k) { s.pos = 0; PRNG h = scripted_prng(0); NEAR(std::string("form_") + d.name, d.same[k](p, h), x, 1e-12, 1e-14); EQ("form_draws", s.pos, used); }
			s.pos = used;
		});
		CHECK(std::string("error_") + d.name, errno == 0);
		auto cdf = [&](double x) { return d.cdf(p, x); };
		KS(std::string("distribution_") + d.name, v, cdf, (d.parity ? 0.5 : 0.5) / m + 1e-5);
		vf::count("answer paths", v.size());
	}
}
// answers at the ends of the range: always a finite value of the support, never an error
static std::vector<u64> extremes() { return {0, 1, 2, PREC / 2, PREC - 2, PREC - 1, PREC, 0x7fffffffffffffffull, 0xffffffffffffffffull}; }
static bool bad(double x) { return !(x == x) || std::isinf(x); }
SECTION(r02_extreme) {
	const auto e = extremes();
	for (auto& d : dists()) for (auto& p : d.par)
		tree(e, 4, [&](Script& s, bool&) {
			PRNG g = scripted_prng(0); double x = 0; bool cut = false;
			if (s.ix.empty()) s.pos = 0;
			errno = 0;
			try { x = d.f(p, g); } catch (Cut&) { cut = true; }
			if (!vf::begin("%s theta %s answers %s", d.name, show(p).c_str(), path(s).c_str()) || cut) return;
			CHECKF(std::string("finite_") + d.name, !bad(x), "value %g", x);
			CHECK(std::string("error_") + d.name, errno == 0);
			double F = d.cdf(p, x);
			CHECKF(std::string("support_") + d.name, F >= -1e-12 && F <= 1 + 1e-12, "value %g outside the support", x);
			if (d.name[0] == 'p') CHECK("support_pareto", x >= p[0] * (1 - 1e-12));
			if (d.name[0] == 'e' || d.name[0] == 'r') CHECK("support_positive", x >= 0);
		});
	std::vector<double (*)(double, double, PRNG&)> gs = {rand_gaussian_polar, rand_gaussian_boxmuller, rand_gaussian};
	for (size_t k = 0; k < gs.size(); ++k)
		tree(e, k == 1 ? 4 : 4, [&](Script& s, bool&) {
			PRNG g = scripted_prng(0); double x = 0, y = 0; bool cut = false;
			errno = 0;
			try { x = gs[k](1, 2, g); } catch (Cut&) { cut = true; }
			if (!cut) y = gs[k](1, 2, g);
			if (!vf::begin("gaussian %zu answers %s", k, path(s).c_str()) || cut) return;
			CHECKF("finite_gaussian", !bad(x) && !bad(y), "values %g %g", x, y);
			CHECK("error_gaussian", errno == 0);
		});
	tree(e, 3, [&](Script& s, bool&) {
		PRNG g = scripted_prng(0);
		double x = rand_gaussian_clt(1, 2, g, 3);
		if (!vf::begin("clt answers %s", path(s).c_str())) return;
		CHECK("finite_clt", !bad(x));
		CHECK("bounded_clt", std::fabs(x - 1) <= 2 * 3 + 1e-9);
	});
	for (u64 prec : std::vector<u64>{1, 2, 3, 10, 1000, 1 << 20, PREC, PREC * 4})
		for (u64 a : e) for (u64 k = 0; k < 25; ++k) for (auto& ab : std::vector<V>{{0, 1}, {-1, 1}, {2, 7}, {5, 5}}) {
			if (!vf::begin("uniform precision %llu answer %llu in %s", (unsigned long long) prec, (unsigned long long) (a + k), show(ab).c_str())) continue;
			std::vector<u64> one = {a + k}; Script s; s.ans = &one; SC[0] = &s;
			PRNG g = scripted_prng(0);
			double x = rand_uniform(ab[0], ab[1], g, prec);
			NEAR("uniform_value", x, (L) ab[0] + ((L) ab[1] - ab[0]) * ((L) ((a + k) % prec) / prec), 1e-12, 1e-12);
			CHECK("uniform_range", x >= ab[0] && x <= ab[1]);
		}
}
SECTION(r02_scaled) { // the samplers of location-scale families in other units, on the same answers
	for (int e = -40; e <= 200; e += vf::thorough() ? 3 : 12) for (int k = 0; k < 3; ++k) for (u64 seed = 1; seed <= 6; ++seed) {
		if (!vf::begin("samplers in units 2^%d with %s seed %llu", e, GEN[k], (unsigned long long) seed)) continue;
		const double s = std::ldexp(1.0, e); PRNG g = make(k, seed), h = make(k, seed); errno = 0;
		for (int i = 0; i < 12; ++i) {
			NEAR("uniform", rand_uniform(-2 * s, 3 * s, g), (L) rand_uniform(-2, 3, h) * s, 1e-13, 1e-13 * s); if (e < 50) NEAR("exponential", rand_exponential(2 / s, g), (L) rand_exponential(2, h) * s, 1e-12, 0); NEAR("rayleigh", rand_rayleigh(0.5 * s, g), (L) rand_rayleigh(0.5, h) * s, 1e-12, 0);
			NEAR("cauchy", rand_cauchy(s, 3 * s, g), (L) rand_cauchy(1, 3, h) * s, 1e-11, 1e-12 * s); NEAR("laplace", rand_laplace(-s, 2 * s, g), (L) rand_laplace(-1, 2, h) * s, 1e-11, 1e-12 * s); NEAR("pareto", rand_pareto(3 * s, 2, g), (L) rand_pareto(3, 2, h) * s, 1e-12, 0); NEAR("clt", rand_gaussian_clt(s, 2 * s, g), (L) rand_gaussian_clt(1, 2, h) * s, 1e-11, 1e-12 * s);
			double a = rand_gaussian_polar(s, 2 * s, g), b = rand_gaussian_polar(s, 2 * s, g), c = rand_gaussian_polar(1, 2, h), d = rand_gaussian_polar(1, 2, h); NEAR("polar", a, (L) c * s, 1e-11, 1e-12 * s); NEAR("polar spare", b, (L) d * s, 1e-11, 1e-12 * s);
			a = rand_gaussian_boxmuller(s, 2 * s, g), b = rand_gaussian_boxmuller(s, 2 * s, g), c = rand_gaussian_boxmuller(1, 2, h), d = rand_gaussian_boxmuller(1, 2, h); NEAR("boxmuller", a, (L) c * s, 1e-11, 1e-12 * s); NEAR("boxmuller spare", b, (L) d * s, 1e-11, 1e-12 * s);
		}
		U64("same draws", g.last(), h.last()); CHECK("no_error", errno == 0); vf::state(e);
	}
}
SECTION(r02_gauss) {
	struct G { const char* name; real (*f)(real, real, PRNG&); };
	const std::vector<G> gs = {{"polar", rand_gaussian_polar}, {"boxmuller", rand_gaussian_boxmuller}, {"default", rand_gaussian}};
	const int m = vf::thorough() ? 400 : 128;
	const auto a = grid(m);
	for (auto& t : gs) for (auto& p1 : std::vector<V>{{0, 1}, {3, 0.5}}) for (auto& p2 : std::vector<V>{{0, 1}, {-1, 2}}) {
		if (!vf::begin("gaussian %s first %s second %s", t.name, show(p1).c_str(), show(p2).c_str())) continue;
		std::vector<double> x, y; size_t cuts = 0; L sx = 0, sy = 0, xx = 0, yy = 0, xy = 0, x2y2 = 0;
		errno = 0;
		tree(a, 2, [&](Script& s, bool&) {
			PRNG g = scripted_prng(0); double u, v;
			try { u = t.f(p1[0], p1[1], g); } catch (Cut&) { ++cuts; return; }
			size_t used = s.pos;
			v = t.f(p2[0], p2[1], g);
			s.pos = used;
			x.push_back(u); y.push_back(v);
			double zu = (u - p1[0]) / p1[1], zv = (v - p2[0]) / p2[1];
			sx += zu; sy += zv; xx += (L) zu * zu; yy += (L) zv * zv; xy += (L) zu * zv; x2y2 += (L) zu * zu * zv * zv;
		});
		CHECK("gauss_error", errno == 0);
		CHECKF("gauss_paths", x.size() + cuts == (size_t) m * m && x.size() > (size_t) m * m / 2, "%zu values", x.size());
		const double n = x.size(), tol = 2.5 / m;
		auto c1 = [&](double q) { return gauss((q - p1[0]) / p1[1]); };
		auto c2 = [&](double q) { return gauss((q - p2[0]) / p2[1]); };
		KS("gauss_first", x, c1, tol); KS("gauss_second", y, c2, tol);
		NEAR("gauss_mean", sx / n, 0, 0, 0.01); NEAR("gauss_mean", sy / n, 0, 0, 0.01);
		NEAR("gauss_variance", xx / n, 1, 0, 0.03); NEAR("gauss_variance", yy / n, 1, 0, 0.03);
		NEAR("gauss_correlation", xy / n, 0, 0, 0.01); NEAR("gauss_independence", x2y2 / n, 1, 0, 0.1);
		vf::count("answer paths", (u64) m * m);
	}
	// every form of the Gaussian generator draws the same values from the same answers
	{ const auto q = grid(17);
	for (auto& p : std::vector<V>{{0, 1}, {3, 0.5}, {-1, 2}}) tree(q, 2, [&](Script& s, bool&) {
		PRNG g = scripted_prng(0); double u[2]; bool cut = false;
		try { u[0] = rand_gaussian(p[0], p[1], g); } catch (Cut&) { cut = true; }
		if (!vf::begin("gaussian forms %s answers %s", show(p).c_str(), path(s).c_str()) || cut) return;
		size_t used = s.pos; u[1] = rand_gaussian(p[0], p[1], g); CHECK("gauss_pair", s.pos == used || s.pos == 2 * used);
		const size_t all = s.pos;
		if (all != used) return;
		s.pos = 0; PRNG h = scripted_prng(0); for (int i = 0; i < 2; ++i) NEAR("gauss_theta", rand_gaussian(p, h), u[i], 1e-12, 1e-12);
		s.pos = 0; PRNG k = scripted_prng(0); pdf_sampler ps = pdf_sampler::gaussian(p[0], p[1], k); NEAR("gauss_sampler", ps.next(), u[0], 1e-12, 1e-12); NEAR("gauss_sampler", ps(), u[1], 1e-12, 1e-12);
		s.pos = all;
	}); }
	// a rejected point leaves no trace: the value is that of the accepted point alone
	const auto b = grid(vf::thorough() ? 12 : 9);
	std::map<std::string, std::pair<double, double>> one;
	tree(b, 2, [&](Script& s, bool&) { PRNG g = scripted_prng(0); try { double u = rand_gaussian_polar(0, 1, g); size_t k = s.pos; double v = rand_gaussian_polar(0, 1, g); s.pos = k; one[path(s)] = {u, v}; } catch (Cut&) {} });
	tree(b, 4, [&](Script& s, bool&) {
		PRNG g = scripted_prng(0); double u = 0, v = 0; bool cut = false;
		try { u = rand_gaussian_polar(0, 1, g); } catch (Cut&) { cut = true; }
		size_t k = s.pos; if (!cut) v = rand_gaussian_polar(0, 1, g);
		s.pos = k;
		if (!vf::begin("polar after rejections %s", path(s).c_str()) || cut) return;
		if (k % 2 || k < 2) return;
		Script tail; tail.ans = s.ans; tail.ix = {s.ix[k - 2], s.ix[k - 1]}; tail.pos = 2;
		auto it = one.find(path(tail));
		CHECK("polar_tail", it != one.end());
		if (it != one.end()) { NEAR("polar_first", u, it->second.first, 1e-12, 1e-12); NEAR("polar_second", v, it->second.second, 1e-12, 1e-12); }
	});
	// sum of uniform numbers: exact mean and variance of the grid
	for (unsigned N = 1; N <= (vf::thorough() ? 12u : 10u); ++N) for (auto& p : std::vector<V>{{0, 1}, {2, 3}}) {
		const int q = N <= 6 ? 4 : N <= 10 ? 3 : 2;
		if (!vf::begin("clt N=%u theta %s", N, show(p).c_str())) continue;
		L s1 = 0, s2 = 0; double n = 0; const auto a2 = grid(q);
		tree(a2, 64, [&](Script&, bool&) { PRNG g = scripted_prng(0); double z = (rand_gaussian_clt(p[0], p[1], g, N) - p[0]) / p[1]; s1 += z; s2 += (L) z * z; ++n; });
		NEAR("clt_mean", s1 / n, 0, 0, 1e-5); NEAR("clt_variance", s2 / n, 1 - 1.0L / (q * q), 0, 1e-5);
		vf::count("answer paths", (u64) n);
	}
	for (int q : {2, 3}) {
		if (q == 3 && !vf::thorough()) continue;
		if (!vf::begin("clt fixed, %d answers", q)) continue;
		L s1 = 0, s2 = 0, s4 = 0; double n = 0; const auto a2 = grid(q);
		tree(a2, 64, [&](Script&, bool&) { PRNG g = scripted_prng(0); double z = (rand_gaussian_clt(5, 2, g) - 5) / 2; s1 += z; s2 += (L) z * z; s4 += (L) z * z * z * z; ++n; });
		NEAR("clt12_mean", s1 / n, 0, 0, 1e-5); NEAR("clt12_variance", s2 / n, 1 - 1.0L / (q * q), 0, 1e-5);
		vf::count("answer paths", (u64) n);
	}
}
SECTION(r02_discrete) {
	for (unsigned faces = 0; faces <= 40; ++faces) {
		if (!vf::begin("dice with %u faces", faces)) continue;
		std::vector<u64> a; for (u64 k = 0; k < std::max(1u, faces) * 3; ++k) a.push_back(k);
		std::vector<unsigned> hist(faces + 2, 0); bool out = false;
		if (faces == 0) { tree(a, 2, [&](Script&, bool&) { PRNG g = scripted_prng(0); REFUSED("dice_no_faces", rand_diceroll(0, g)); PRNG h = scripted_prng(0); REFUSED("dice_no_faces_theta", rand_diceroll(V{0}, h)); }); continue; }
		errno = 0;
		tree(a, 2, [&](Script& s, bool&) {
			PRNG g = scripted_prng(0); double x = rand_diceroll(faces, g); size_t used = s.pos; s.pos = 0;
			PRNG h = scripted_prng(0); EQ("dice_theta", rand_diceroll(V{(real) faces}, h), x); s.pos = used;
			if (x >= 1 && x <= faces && x == std::floor(x)) ++hist[(size_t) x]; else out = true;
		});
		CHECK("dice_range", !out); CHECK("dice_error", errno == 0);
		for (unsigned k = 1; k <= faces; ++k) EQ("dice_equal", hist[k], 3u);
	}
	for (u64 a : std::vector<u64>{0, 1, 2, 3, 4, 5, 6, 7, PREC - 2, PREC - 1, 0xfffffffffffffffeull, 0xffffffffffffffffull}) {
		if (!vf::begin("coin %llu", (unsigned long long) a)) continue;
		std::vector<u64> one = {a, a ^ 1}; double s = 0;
		tree(one, 2, [&](Script& sc, bool&) { PRNG g = scripted_prng(0); double x = rand_cointoss(g); CHECK("coin_value", x == 1 || x == -1); size_t u = sc.pos; sc.pos = 0; PRNG h = scripted_prng(0); EQ("coin_theta", rand_cointoss(V{}, h), x); sc.pos = u; s += x; });
		EQ("coin_fair", s, 0.0);
	}
	// parameter vectors of every size
	struct W { const char* n; size_t need; real (*f)(const V&, PRNG&); };
	for (auto& w : std::vector<W>{{"uniform", 2, rand_uniform}, {"diceroll", 1, rand_diceroll}, {"gaussian", 2, rand_gaussian}, {"exponential", 1, rand_exponential}, {"rayleigh", 1, rand_rayleigh}, {"cauchy", 2, rand_cauchy}, {"laplace", 2, rand_laplace}, {"pareto", 2, rand_pareto}})
		for (size_t n = 0; n <= 4; ++n) {
			if (!vf::begin("%s with %zu parameters", w.n, n)) continue;
			PRNG g = PRNG::xoshiro(3); V th(n, 1.5);
			if (n != w.need) REFUSED(std::string("theta_") + w.n, w.f(th, g));
			else { errno = 0; double x = w.f(th, g); CHECK("theta_value", !bad(x)); CHECK("theta_errno", errno == 0); w.f(th, g); }
			PRNG h = PRNG::xoshiro(3); pdf_sampler p(w.f, th, h);
			if (n != w.need) { REFUSED("sampler_theta", p()); }
		}
	{ PRNG g = PRNG::xoshiro(3); if (vf::begin("exponential with null rate")) REFUSED("exponential_null", rand_exponential(0, g)); if (vf::begin("dice with negative faces")) REFUSED("dice_negative", rand_diceroll(V{-2}, g)); }
	// samplers: next, call, stream and fill draw the same sequence from the shared generator
	struct S2 { const char* n; pdf_sampler (*mk)(PRNG&); };
	const std::vector<S2> mk = {{"uniform", [](PRNG& g) { return pdf_sampler::uniform(-1, 2, g); }}, {"gaussian", [](PRNG& g) { return pdf_sampler::gaussian(1, 2, g); }}, {"exponential", [](PRNG& g) { return pdf_sampler::exponential(2, g); }}, {"laplace", [](PRNG& g) { return pdf_sampler::laplace(1, 2, g); }}};
	for (auto& s : mk) for (u64 seed = 1; seed <= 20; ++seed) words(std::vector<int>{0, 1, 2, 3, 4}, 3, [&](const std::vector<int>& w) {
		if (!vf::begin("sampler %s seed %llu ops %s", s.n, (unsigned long long) seed, show(w).c_str())) return;
		PRNG g = PRNG::xoshiro(seed), h = PRNG::xoshiro(seed);
		pdf_sampler a = s.mk(g), b = s.mk(h); V got;
		for (int o : w) {
			V x; real r;
			if (o == 0) x = {a.next()}; if (o == 1) x = {a()}; if (o == 2) { a >> r; x = {r}; }
			if (o == 3) { x.assign(4, 99); a.fill(x, 2); EQ("fill_bounded", x[2], 99.0); EQ("fill_bounded", x[3], 99.0); x.resize(2); }
			if (o == 4) { vec<real> v; v.resize(3); a.fill(v); x = {v[0], v[1], v[2]}; }
			for (real q : x) got.push_back(q);
		}
		// Gaussian values come in pairs: leave no spare value behind
		if (got.size() % 2) got.push_back(a());
		for (real q : got) EQ("sampler_sequence", q, b.pdf(b.theta, b.generator));
	});
}
static double tri(double x) { return x < 0 || x > 2 ? 0 : x < 1 ? x : 2 - x; }
SECTION(r02_rejection) {
	const int m = vf::thorough() ? 13 : 7;
	const auto a = grid(m);
	stat_function f = [](real x, const vec<real>& t) { return t[0] * tri(x - t[1]); };
	for (real amp : {0.3, 0.8, 1.0}) for (real sh : {0.0, -1.0}) for (unsigned lim = 1; lim <= 3; ++lim) {
		vec<real> th = {amp, sh}; const real x1 = sh - 0.37, x2 = sh + 2.21, y1 = 0, y2 = 1.07;
		tree(a, 2 * lim, [&](Script& s, bool&) {
			if (lim > 2 && !s.ix.empty() && m > 7 && s.ix[0] % 2) { s.pos = 0; if (!s.ix.empty()) { s.ix.resize(1); s.pos = 1; } return; }
			PRNG g = scripted_prng(0); double r = 0; bool cut = false;
			errno = 0;
			try { r = rand_trycatch(f, th, x1, x2, y1, y2, g, lim + 3); } catch (Cut&) { cut = true; }
			if (!vf::begin("trycatch amp %g shift %g answers %s", amp, sh, path(s).c_str())) return;
			int acc = -1; std::vector<double> xs;
			for (size_t i = 0; i + 1 < s.ix.size() + 0 && acc < 0; i += 2) {
				double x = x1 + (x2 - x1) * value(a[s.ix[i]]), y = y1 + (y2 - y1) * value(a[s.ix[i + 1]]);
				xs.push_back(x);
				if (y <= amp * tri(x - sh)) acc = (int) xs.size() - 1;
			}
			if (acc >= 0) { CHECK("trycatch_accepts", !cut); if (!cut) { NEAR("trycatch_value", r, xs[acc], 1e-12, 1e-12); CHECK("trycatch_error", errno == 0); } }
			else CHECK("trycatch_rejects", cut);
		});
	}
	// limit of attempts
	for (unsigned lim = 1; lim <= 20; ++lim) for (unsigned ok = 1; ok <= lim + 1; ++ok) {
		if (!vf::begin("trycatch limit %u, success at %u", lim, ok)) continue;
		std::vector<u64> alt = {answer(0.95), answer(0.25), answer(0.1)};   // y = 0.95 misses, x = 0.25 with y = 0.1 hits
		Script s; s.ans = &alt; s.depth = 1000; SC[0] = &s;
		stat_function half = [](real, const vec<real>&) { return 0.5; };
		for (unsigned i = 1; i < 60; ++i) { s.ix.push_back(1); s.ix.push_back(i == ok && ok <= lim ? 2 : 0); }
		PRNG g = scripted_prng(0); errno = 0;
		double r = rand_trycatch(half, vec<real>(), 0, 1, 0, 1, g, lim);
		if (ok <= lim) { NEAR("trycatch_last_try", r, 0.25, 1e-9, 1e-9); CHECK("trycatch_last_try_errno", errno == 0); }
		else { ISNAN("trycatch_limit", r); CHECK("trycatch_limit_errno", errno != 0); }
		s.pos = 0; PRNG h = scripted_prng(0); errno = 0;
		r = rand_rejectsamp(half, vec<real>(), [](real) { return 1.0; }, [](real u) { return u; }, h, lim);
		if (ok <= lim) { NEAR("rejectsamp_last_try", r, 0.25, 1e-9, 1e-9); CHECK("rejectsamp_last_try_errno", errno == 0); }
		else { ISNAN("rejectsamp_limit", r); CHECK("rejectsamp_limit_errno", errno != 0); }
	}
	for (real amp : {0.3, 0.8}) for (real k : {1.0, 2.5}) for (unsigned lim = 1; lim <= 2; ++lim) {
		vec<real> th = {amp, 0};
		real_function p = [k](real x) { return k * 0.5; }, Pinv = [](real u) { return 2 * u; };
		tree(a, 2 * lim, [&](Script& s, bool&) {
			PRNG g = scripted_prng(0); double r = 0; bool cut = false;
			errno = 0;
			try { r = rand_rejectsamp(f, th, p, Pinv, g, lim + 3); } catch (Cut&) { cut = true; }
			if (!vf::begin("rejectsamp amp %g k %g answers %s", amp, k, path(s).c_str())) return;
			int acc = -1; std::vector<double> xs;
			for (size_t i = 0; i + 1 < s.ix.size() && acc < 0; i += 2) { double x = 2 * value(a[s.ix[i]]); xs.push_back(x); if (value(a[s.ix[i + 1]]) * k * 0.5 < amp * tri(x)) acc = (int) xs.size() - 1; }
			if (acc >= 0) { CHECK("rejectsamp_accepts", !cut); if (!cut) { NEAR("rejectsamp_value", r, xs[acc], 1e-12, 1e-12); CHECK("rejectsamp_error", errno == 0); } }
			else CHECK("rejectsamp_rejects", cut);
		});
	}
}
// Metropolis: every sequence of proposals and acceptance draws; reference chain
SECTION(r02_metropolis) {
	const std::vector<std::function<double(double)>> pdfs = {[](double x) { return x < -1 || x > 1.3 ? 0.0 : 1.0 + x * 0.5; }, [](double x) { return std::exp(-x * x); }, [](double x) { return x < 0 ? 0.0 : std::exp(-x); }};
	auto prop = grid(vf::thorough() ? 7 : 5); 
	std::vector<u64> acc = {0, answer(0.2), answer(0.5), answer(0.999)};
	for (size_t k = 0; k < pdfs.size(); ++k) for (double x0 : {0.0, 0.7, -3.0}) for (double w : {0.5, 2.0}) for (unsigned depth = 0; depth <= 3; ++depth)
		words(prop, depth, [&](const std::vector<u64>& pw) { words(acc, depth, [&](const std::vector<u64>& aw) {
			if (!vf::begin("metropolis pdf %zu start %g width %g proposals %zu", k, x0, w, (size_t) depth)) return;
			auto pdf = pdfs[k];
			double cur = x0;
			for (unsigned i = 0; i < depth; ++i) {
				double nx = cur + (-w + 2 * w * value(pw[i]));
				double pc = pdf(cur), pn = pdf(nx);
				if (pn > 0 ? value(aw[i]) * pc < pn : pc == 0) cur = nx;
			}
			Script s1, s2; s1.ans = &pw; s2.ans = &aw; for (unsigned i = 0; i < depth; ++i) { s1.ix.push_back(i); s2.ix.push_back(i); }
			SC[0] = &s1; SC[1] = &s2;
			PRNG g = scripted_prng(0), h = scripted_prng(1);
			pdf_sampler ps = pdf_sampler::uniform(-w, w, g);
			double r = metropolis(pdf, ps, x0, h, depth);
			CHECK("metropolis_support", pdf(x0) == 0 || pdf(r) > 0);
			if (pdf(x0) > 0) NEAR("metropolis_chain", r, cur, 1e-9, 1e-9);
			EQ("metropolis_proposals", s1.pos, (size_t) depth);
			// one generator for both
			std::vector<u64> both, swapped; for (unsigned i = 0; i < depth; ++i) { both.push_back(pw[i]); both.push_back(aw[i]); }
			Script s3; s3.ans = &both; for (size_t i = 0; i < both.size(); ++i) s3.ix.push_back(i);
			SC[0] = &s3; PRNG b = scripted_prng(0);
			pdf_sampler pb = pdf_sampler::uniform(-w, w, b);
			double rb = metropolis(pdf, pb, x0, depth);
			CHECK("metropolis_shared_support", pdf(x0) == 0 || pdf(rb) > 0);
			if (pdf(x0) > 0) NEAR("metropolis_shared", rb, cur, 1e-9, 1e-9);
		}); });
	// stationary distribution: from a complete grid of start points the accepted masses balance
	for (int n : {40}) for (double w : {0.3, 1.0}) {
		if (!vf::begin("metropolis detailed balance width %g", w)) continue;
		auto pdf = [](double x) { return x < 0 || x > 1 ? 0.0 : 0.5 + x; };
		const int m = 60; const auto pg = grid(m), ag = grid(m);
		L mean0 = 0, mean1 = 0, mass = 0, q0 = 0, q1 = 0;
		for (int i = 0; i < n; ++i) { double x0 = (i + 0.5) / n, wt = pdf(x0);
			for (u64 p : pg) for (u64 u : ag) { std::vector<u64> a1 = {p}, a2 = {u}; Script s1, s2; s1.ans = &a1; s2.ans = &a2; SC[0] = &s1; SC[1] = &s2; PRNG g = scripted_prng(0), h = scripted_prng(1); pdf_sampler ps = pdf_sampler::uniform(-w, w, g); double r = metropolis(pdf, ps, x0, h, 1); mean0 += wt * x0; mean1 += wt * r; q0 += wt * x0 * x0; q1 += wt * r * r; mass += wt; } }
		NEAR("metropolis_invariant_mean", mean1 / mass, mean0 / mass, 0, 0.01); NEAR("metropolis_invariant_square", q1 / mass, q0 / mass, 0, 0.01);
	}
}

// ------------------------------------------------------------------------------------ R03
template<class W> static W seq(size_t n) { W w; w.resize(n); for (size_t i = 0; i < n; ++i) w[i] = (real) i; return w; }
template<class W> static bool perm(const W& w, size_t n) { if (w.size() != n) return false; std::vector<char> s(n, 0); for (size_t i = 0; i < n; ++i) { double v = w[i]; if (!(v >= 0 && v < n) || v != std::floor(v) || s[(size_t) v]) return false; s[(size_t) v] = 1; } return true; }
template<class W> static void shuffles(const char* ty, size_t n, unsigned rounds, bool uniform) {
	std::vector<u64> a; for (u64 i = 0; i < n; ++i) a.push_back(i + 5 * n);
	std::map<std::vector<double>, u64> seen; u64 total = 0;
	tree(a, 64, [&](Script& s, bool&) {
		PRNG g = scripted_prng(0); W w = seq<W>(n);
		errno = 0; shuffle(w, g, rounds);
		bool go = vf::begin("%s of %zu, %u rounds, choices %zu", ty, n, rounds, s.pos); if (!go) return;
		CHECKF("permutation", perm(w, n), "%s after %s", show(w).c_str(), path(s).c_str()); CHECK("shuffle_error", errno == 0);
		std::vector<double> k; for (size_t i = 0; i < w.size(); ++i) k.push_back(w[i]); ++seen[k]; ++total;
		vf::state(vf::mix(total, n));
	});
	if (vf::S().only) return;
	u64 fact = 1; for (u64 i = 2; i <= n; ++i) fact *= i;
	if (rounds == 0 || rounds + 1 >= n) CHECKF("all_orders", seen.size() == fact, "%zu orders reached of %llu", seen.size(), (unsigned long long) fact);
	if (uniform) for (auto& p : seen) NEAR("order_frequency", (double) p.second / total, 1.0 / fact, 0, 0.2 / fact);
}
SECTION(r03_scripts) {
	for (size_t n = 1; n <= 3; ++n) { shuffles<std::vector<real>>("std::vector", n, 0, n == 2 || n == 3 ? true : false); shuffles<vec<real>>("vec", n, 0, false); }
	for (size_t n = 1; n <= 4; ++n) for (unsigned r = 1; r <= (vf::thorough() && n < 4 ? 5u : 4u); ++r) if (n < 4 || r < 4 || true) shuffles<std::vector<real>>("std::vector", n, r, false);
	shuffles<std::vector<real>>("std::vector", 5, 3, false);
	if (vf::thorough()) { shuffles<std::vector<real>>("std::vector", 5, 4, false); shuffles<std::vector<real>>("std::vector", 4, 5, false); }
	{ std::vector<real> e; vec<real> v; PRNG g = PRNG::xoshiro(1);
		for (unsigned r : {0u, 1u, 5u}) { if (vf::begin("empty std::vector rounds %u", r)) { errno = 0; shuffle(e, g, r); CHECK("empty_refused", errno == EINVAL); EQ("empty", e.size(), 0u); }
			if (vf::begin("empty vec rounds %u", r)) { errno = 0; shuffle(v, g, r); CHECK("empty_refused", errno == EINVAL); } } }
}
SECTION(r03_seeds) {
	for (int k = 0; k < 5; ++k) for (size_t n = 1; n <= 40; ++n) for (u64 seed = 1; seed <= (vf::thorough() ? 60u : 8u); ++seed) {
		if (!vf::begin("shuffle of %zu with %s seed %llu", n, GEN[k], (unsigned long long) seed)) continue;
		PRNG g = make(k, seed), h = make(k, seed);
		auto a = seq<std::vector<real>>(n); auto b = seq<vec<real>>(n); std::vector<int> c(n); for (size_t i = 0; i < n; ++i) c[i] = (int) i;
		shuffle(a, g); shuffle(b, h);
		CHECK("permutation_seed", perm(a, n)); CHECK("permutation_vec", perm(b, n));
		bool same = true; for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) same = false;
		CHECK("same_order", same);
		PRNG q = make(k, seed); shuffle(c, q); for (size_t i = 0; i < n; ++i) if (c[i] != (int) a[i]) same = false;
		CHECK("same_order_int", same);
		// the default number of exchanges is (N - 1)^2
		if (n > 1) { PRNG e = make(k, seed); auto d = seq<std::vector<real>>(n); shuffle(d, e, (unsigned) ((n - 1) * (n - 1))); for (size_t i = 0; i < n; ++i) if (d[i] != a[i]) same = false; CHECK("default_rounds", same); U64("default_draws", e.last(), g.last()); }
	}
}
SECTION(r03_sizes) { // long sets: a permutation, no element left out of the exchanges
	for (size_t n = 41; n <= (vf::thorough() ? 1025u : 300u); n = n < 140 ? n + 1 : n < 255 ? 255 : n < 257 ? n + 1 : n < 299 ? 299 : n + (n < 303 ? 1 : 91)) for (int k = 0; k < 3; ++k) for (unsigned rounds : {0u, 1u, 7u, (unsigned) n}) {
		if (!vf::begin("shuffle of %zu with %s, %u rounds", n, GEN[k], rounds)) continue;
		PRNG g = make(k, n), h = make(k, n); auto a = seq<std::vector<real>>(n); auto b = seq<vec<real>>(n); errno = 0; shuffle(a, g, rounds); shuffle(b, h, rounds);
		CHECK("permutation", perm(a, n)); CHECK("permutation_vec", perm(b, n)); bool same = true; for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) same = false; CHECK("same_order", same); CHECK("no_error", errno == 0);
		if (!rounds) { size_t fixed = 0; for (size_t i = 0; i < n; ++i) fixed += a[i] == seq<std::vector<real>>(n)[i]; CHECK("mixed", fixed < 12); vf::state(n); }
	}
}

// ------------------------------------------------------------------------------------ R04
// a generator that runs through the complete product grid of answers: draw j of sample i is digit j of i
struct Odo { std::vector<u64> g; unsigned dims; u64 n = 0; };
static Odo* OD;
static u64 odometer(u64, std::vector<u64>&) {
	u64 i = OD->n / OD->dims, j = OD->n % OD->dims; ++OD->n;
	for (u64 k = 0; k < j; ++k) i /= OD->g.size();
	return OD->g[i % OD->g.size()];
}
static PRNG odo(Odo& o) { OD = &o; o.n = 0; return PRNG(odometer, 0); }
static double CO[4];
static double poly(double x) { return CO[0] + x * (CO[1] + x * (CO[2] + x * CO[3])); }
static L prim(L x) { return x * (CO[0] + x * (CO[1] / 2 + x * (CO[2] / 3 + x * CO[3] / 4))); }
static double poly2(vec<real, 2> v) { return CO[0] + CO[1] * v[0] + CO[2] * v[0] * v[1] + CO[3] * v[1] * v[1]; }
static double poly3(vec<real, 3> v) { return CO[0] + CO[1] * v[0] + CO[2] * v[0] * v[1] * v[2] + CO[3] * v[2] * v[2]; }
static double polyxy(double x, double y) { return CO[0] + CO[1] * x + CO[2] * x * y + CO[3] * y * y; }
static const std::vector<std::pair<double, double>> IV = {{0, 1}, {-1, 2}, {2, 2.5}, {-3, -1}};
template<class F> static void coeffs(F f) { words(std::vector<double>{-1.5, 0, 2}, 4, [&](const std::vector<double>& c) { for (int i = 0; i < 4; ++i) CO[i] = c[i]; f(show(c)); }); }
SECTION(r04_crude) {
	coeffs([&](const std::string& c) { for (auto& iv : IV) for (int m : {1, 2, 5, 40}) {
		if (!vf::begin("crude coefficients %s on [%g,%g], %d answers", c.c_str(), iv.first, iv.second, m)) continue;
		const double a = iv.first, b = iv.second; Odo o{grid(m), 1}; PRNG g = odo(o);
		L s = 0, sc = 0; for (u64 x : o.g) { L t = poly(a + (b - a) * value(x)); s += t; sc += fabsl(t); }
		NEAR("crude", integral_crude(poly, a, b, g, m), (b - a) * s / m, 1e-10, 1e-10 * (double) (1 + sc));
		if (m == 40) NEAR("crude_integral", integral_crude(poly, a, b, g, m * 3), prim(b) - prim(a), 0, 0.02 * (b - a) * (b - a) * (b - a));
		if (m == 5 || m == 40) {
			Odo o2{grid(m), 2}; PRNG g2 = odo(o2);
			vec<vec2, 2> ex = {{a, b}, {-1, 3}};
			L s2 = 0; for (u64 x : o2.g) for (u64 y : o2.g) s2 += poly2({a + (b - a) * value(x), -1 + 4 * value(y)});
			NEAR("crude_2d", integral_crude<2>(poly2, ex, g2, m * m), (b - a) * 4 * s2 / (m * m), 1e-9, 1e-9);
		}
		if (m == 5) {
			Odo o3{grid(m), 3}; PRNG g3 = odo(o3);
			vec<vec2, 3> ex = {{a, b}, {-1, 3}, {0, 0.5}};
			L s3 = 0; for (u64 x : o3.g) for (u64 y : o3.g) for (u64 z : o3.g) s3 += poly3({a + (b - a) * value(x), -1 + 4 * value(y), 0.5 * value(z)});
			NEAR("crude_3d", integral_crude<3>(poly3, ex, g3, m * m * m), (b - a) * 2 * s3 / (m * m * m), 1e-9, 1e-9);
		}
		// importance sampling with density 2z/(1+...) on [1,2]: g(z) = 2(z-0.5)/2
		if (m == 40) {
			Odo o1{grid(m), 1}; PRNG g1 = odo(o1);
			real_function dens = [](real z) { return z / 1.5; }, inv = [](real u) { return std::sqrt(1 + 3 * u); };
			L si = 0; for (u64 x : o1.g) { double z = std::sqrt(1 + 3 * value(x)); si += poly(z) / (z / 1.5); }
			NEAR("impsamp", integral_impsamp(poly, dens, inv, g1, m), si / m, 1e-10, 1e-10);
			NEAR("impsamp_integral", si / m, prim(2) - prim(1), 0, 0.02);
			L sq = 0; for (int i = 1; i <= 200; ++i) { L u = i * (L) INVPHI; u -= floorl(u); L z = sqrtl(1 + 3 * u); sq += poly((double) z) / (z / 1.5L); }
			NEAR("quasi_impsamp", integral_quasi_impsamp(poly, dens, inv, 200), sq / 200, 1e-9, 1e-9);
		}
	} });
}
SECTION(r04_hom) {
	const int m = vf::thorough() ? 150 : 60;
	coeffs([&](const std::string& c) { for (auto& iv : IV) {
		const double a = iv.first, b = iv.second; double lo = poly(a), hi = poly(a);
		for (int i = 0; i <= 2000; ++i) { double v = poly(a + (b - a) * i / 2000); lo = std::min(lo, v); hi = std::max(hi, v); }
		const double I = (double) (prim(b) - prim(a));
		for (double pad : {0.0, 0.7}) {
			if (!vf::begin("hit-or-miss coefficients %s on [%g,%g] pad %g", c.c_str(), a, b, pad)) continue;
			const double c0 = lo - pad, d0 = hi + pad * 2;
			if (!(d0 > c0)) continue;
			Odo o{grid(m), 2}; PRNG g = odo(o);
			const double tol = (b - a) * (d0 - c0) * 2.0 / m + 1e-9;
			NEAR("hom", integral_hom(poly, a, b, c0, d0, g, m * m), I, 0, tol);
			NEAR("quasi_hom", integral_quasi_hom(poly, a, b, c0, d0, m * m), I, 0, tol);
			if (lo >= 0) {
				Odo o2{grid(m), 2}; PRNG g2 = odo(o2);
				const double t2 = (b - a) * d0 * 2.0 / m + 1e-9;
				NEAR("hom_positive", integral_hom(poly, a, b, d0, g2, m * m), I, 0, t2);
				NEAR("quasi_hom_positive", integral_quasi_hom(poly, a, b, d0, (unsigned) (m * m)), I, 0, t2);
			}
		}
		// double integral of the positive part
		if (!vf::begin("hit-or-miss double integral %s on [%g,%g]", c.c_str(), a, b)) continue;
		const int k = 24; double top = 0; L s = 0;
		for (int i = 0; i < 200; ++i) for (int j = 0; j < 200; ++j) { double v = polyxy(a + (b - a) * (i + 0.5) / 200, -1 + 2 * (j + 0.5) / 200); top = std::max(top, v); s += std::max(v, 0.0); }
		if (!(top > 0)) continue;
		top *= 1.05;
		Odo o3{grid(k), 3}; PRNG g3 = odo(o3);
		NEAR("hom_2d", integral_hom_2d(polyxy, a, b, -1, 1, top, g3, k * k * k), (double) ((b - a) * 2 * s / 40000), 0, (b - a) * 2 * top * 1.6 / k);
	} });
}
// number of points below the function among the answers actually drawn, as [sure hits, sure hits and ties]
struct Hits { long sure = 0, ties = 0; void add(double f, double y) { double t = 1e-9 * (1 + std::fabs(f)); if (f > y + t) ++sure; else if (f > y - t) ++ties; } };
#define COUNT(tag, got, h, n, unit, base) do { ++vf::S().checks; double g_ = (got), lo_ = (base) + (unit) * (h).sure / (n), hi_ = (base) + (unit) * ((h).sure + (h).ties) / (n), t_ = 1e-9 * (1 + std::fabs(lo_) + std::fabs(hi_)); \
	if (!(g_ >= std::min(lo_, hi_) - t_ && g_ <= std::max(lo_, hi_) + t_)) vf::fail(tag, "got %.12g, expected %.12g to %.12g (%s)", g_, lo_, hi_, #got); } while (0)
SECTION(r04_hits) {
	// few points on a coarse grid, so that one hit more or less is visible; also the default number of points
	coeffs([&](const std::string& c) { for (auto& iv : IV) for (unsigned N : {1u, 2u, 3u, 9u, 25u, 1000u}) for (int m : {3, 5, 8}) {
		if (!vf::begin("hits of %s on [%g,%g], %u points, %d answers", c.c_str(), iv.first, iv.second, N, m)) continue;
		const double a = iv.first, b = iv.second, c0 = -4, d0 = 9, top = 6;
		Odo o{grid(m), 2}; Hits h, p;
		for (unsigned i = 0; i < N; ++i) { double u = value(o.g[i % m]), v = value(o.g[i / m % m]); double f = poly(a + (b - a) * u); h.add(f, c0 + (d0 - c0) * v); p.add(f, top * v); }
		PRNG g = odo(o);
		COUNT("hom_count", integral_hom(poly, a, b, c0, d0, g, N), h, N, (b - a) * (d0 - c0), (b - a) * c0); EQ("hom_draws", o.n, 2ull * N);
		o.n = 0; COUNT("hom_count_positive", integral_hom(poly, a, b, top, g, N), p, N, (b - a) * top, 0.0); EQ("hom_draws", o.n, 2ull * N);
		if (N == 1000) { o.n = 0; COUNT("hom_default", integral_hom(poly, a, b, c0, d0, g), h, N, (b - a) * (d0 - c0), (b - a) * c0); o.n = 0; COUNT("hom_default_positive", integral_hom(poly, a, b, top, g), p, N, (b - a) * top, 0.0); }
		Odo o3{grid(m), 3}; Hits h3;
		for (unsigned i = 0; i < N; ++i) h3.add(polyxy(a + (b - a) * value(o3.g[i % m]), -1 + 3 * value(o3.g[i / m % m])), top * value(o3.g[i / m / m % m]));
		PRNG g3 = odo(o3);
		COUNT("hom_2d_count", integral_hom_2d(polyxy, a, b, -1, 2, top, g3, N), h3, N, (b - a) * 3 * top, 0.0); EQ("hom_2d_draws", o3.n, 3ull * N);
		if (N == 1000) { o3.n = 0; COUNT("hom_2d_default", integral_hom_2d(polyxy, a, b, -1, 2, top, g3), h3, N, (b - a) * 3 * top, 0.0); }
		if (m == 3) {
			Hits q, r; const L al = 0.7548776662466927L;
			for (unsigned i = 0; i < N; ++i) { L u = i * al, v = i * (al * al); u -= floorl(u); v -= floorl(v); double f = poly((double) (a + (b - a) * u)); q.add(f, (double) (c0 + (d0 - c0) * v)); r.add(f, (double) (top * v)); }
			COUNT("quasi_hom_count", integral_quasi_hom(poly, a, b, c0, d0, N), q, N, (b - a) * (d0 - c0), (b - a) * c0);
			COUNT("quasi_hom_count_positive", integral_quasi_hom(poly, a, b, top, N), r, N, (b - a) * top, 0.0);
			if (N == 1000) { COUNT("quasi_hom_default", integral_quasi_hom(poly, a, b, c0, d0), q, N, (b - a) * (d0 - c0), (b - a) * c0); COUNT("quasi_hom_default_positive", integral_quasi_hom(poly, a, b, top), r, N, (b - a) * top, 0.0); }
			// the other estimators, default number of points
			if (N == 1000) {
				Odo o1{grid(m), 1}; PRNG g1 = odo(o1); double full = integral_crude(poly, a, b, g1, 1000); o1.n = 0; EQ("crude_default", integral_crude(poly, a, b, g1), full); EQ("crude_draws", o1.n, 1000ull);
				vec<vec2, 2> ex = {{a, b}, {-1, 3}}; Odo o2{grid(m), 2}; PRNG g2 = odo(o2); full = integral_crude<2>(poly2, ex, g2, 1000); o2.n = 0; EQ("crude_2d_default", integral_crude<2>(poly2, ex, g2), full); EQ("crude_2d_draws", o2.n, 2000ull);
				EQ("quasi_2d_points", integral_quasi_crude<2>(poly2, ex), integral_quasi_crude<2>(poly2, ex, 1000));
				real_function dens = [](real z) { return z / 1.5; }, inv = [](real u) { return std::sqrt(1 + 3 * u); };
				PRNG g4 = odo(o1); full = integral_impsamp(poly, dens, inv, g4, 1000); o1.n = 0; EQ("impsamp_default", integral_impsamp(poly, dens, inv, g4), full);
				EQ("quasi_impsamp_default", integral_quasi_impsamp(poly, dens, inv), integral_quasi_impsamp(poly, dens, inv, 1000));
			}
		}
	} });
}
static double circ(double a, L b) { L d = a - b; d -= floorl(d + 0.5L); return (double) fabsl(d); }
SECTION(r04_weyl) {
	const std::vector<double> al = {INVPHI, 0.7548776662466927, std::sqrt(2.0) - 1, std::sqrt(3.0), M_PI, 1e-3 * std::sqrt(2.0), -std::sqrt(2.0)};
	const unsigned top = vf::thorough() ? 200000 : 20000;
	for (size_t k = 0; k < al.size(); ++k) {
		double rec = 0;
		for (unsigned n = 0; n < top; ++n) {
			if (!vf::begin_fast("weyl n, alpha", n, al[k])) continue;
			const double alpha = al[k]; const double tol = 1e-15 * (1 + n * std::fabs(alpha)) * 4 + 1e-15;
			auto frac = [&](L x) { return x - floorl(x); };
			double w = qrand_weyl(n, alpha);
			CHECKF("weyl_range", w >= 0 && w <= 1, "value %g", w);
			CHECKF("weyl", circ(w, frac((L) n * alpha)) <= tol, "got %.17g", w);
			if (k == 0) EQ("weyl_default", qrand_weyl(n), w);
			if (k == 0 && n == 1) { EQ("weyl_recurr_default", qrand_weyl_recurr(), w); EQ("weyl_recurr_alpha", qrand_weyl_recurr(w), qrand_weyl_recurr(w, alpha)); }
			if (k == 1) { vec2 d = qrand_weyl2(n), e = qrand_weyl2(n, alpha); EQ("weyl2_default", d[0], e[0]); EQ("weyl2_default", d[1], e[1]); }
			if (n >= 1 && alpha > 0) { rec = n == 1 ? qrand_weyl_recurr(0, alpha) : qrand_weyl_recurr(rec, alpha); CHECKF("weyl_recurr", rec >= 0 && rec <= 1 && circ(rec, frac((L) n * alpha)) <= tol + 4e-16 * n * (1 + alpha), "got %.17g", rec); }
			vec2 v = qrand_weyl2(n, alpha);
			CHECK("weyl2_range", v[0] >= 0 && v[0] <= 1 && v[1] >= 0 && v[1] <= 1);
			CHECKF("weyl2", circ(v[0], frac((L) n * alpha)) <= tol && circ(v[1], frac((L) n * ((L) alpha * alpha))) <= tol * (4 + std::fabs(alpha) * 4), "got %.17g %.17g", v[0], v[1]);
			if (n % 5 == 0) {
				vec<real, 4> q = qrand_weyl_multi<4>(n, alpha); L p = 1;
				for (int i = 0; i < 4; ++i) { p *= alpha; CHECK("weyl_multi_range", q[i] >= 0 && q[i] <= 1); CHECKF("weyl_multi", circ(q[i], frac((L) n * p)) <= 1e-14 * (1 + n * fabsl(p)) , "component %d got %.17g", i, q[i]); }
			}
		}
	}
	// low discrepancy: every prefix of the default sequence covers [0,1) evenly
	std::vector<double> pts;
	for (unsigned n = 1; n <= 3000; ++n) {
		pts.push_back(qrand_weyl(n));
		if (n % 50 && n > 50) continue;
		if (!vf::begin("discrepancy of %u points", n)) continue;
		double d = ks(pts, [](double x) { return x; });
		CHECKF("discrepancy", d <= (2.0 + std::log((double) n)) / n, "discrepancy %g of %u points", d, n);
	}
}
SECTION(r04_quasi) {
	coeffs([&](const std::string& c) { for (auto& iv : IV) for (unsigned N : {1u, 2u, 17u, 1000u}) {
		if (!vf::begin("quasi coefficients %s on [%g,%g] N=%u", c.c_str(), iv.first, iv.second, N)) continue;
		const double a = iv.first, b = iv.second; L s = 0, sc = 1;
		for (unsigned i = 0; i < N; ++i) { L u = (L) i * INVPHI; u -= floorl(u); L t = poly((double) (a + (b - a) * u)); s += t; sc += fabsl(t); }
		NEAR("quasi_crude", integral_quasi_crude(poly, a, b, N), (b - a) * s / N, 1e-9, 1e-9);
		if (N == 1000) {
			double var = 0; for (int i = 0; i < 400; ++i) var += std::fabs(poly(a + (b - a) * (i + 1) / 400.) - poly(a + (b - a) * i / 400.));
			NEAR("quasi_integral", integral_quasi_crude(poly, a, b, N), prim(b) - prim(a), 0, (b - a) * var * 0.009 + 1e-9);
			NEAR("quasi_default", integral_quasi_crude(poly, a, b), integral_quasi_crude(poly, a, b, 1000), 1e-12, 1e-12);
		}
		vec<vec2, 2> ex = {{a, b}, {-1, 3}}; vec<real, 2> al = {std::sqrt(2.0) - 1, std::sqrt(3.0) - 1};
		L s2 = 0; for (unsigned i = 0; i < N; ++i) { L u = i * (L) al[0], v = i * (L) al[1]; u -= floorl(u); v -= floorl(v); s2 += poly2({(double) (a + (b - a) * u), (double) (-1 + 4 * v)}); }
		NEAR("quasi_2d", integral_quasi_crude<2>(poly2, ex, N, al), (b - a) * 4 * s2 / N, 1e-9, 1e-9);
		if (N == 1000) {
			// exact integrals over the box and total size of the integrand
			auto mom = [](L lo, L hi, int k) { return (powl(hi, k + 1) - powl(lo, k + 1)) / (k + 1); };
			const L X0 = b - a, X1 = mom(a, b, 1), Y1 = mom(-1, 3, 1), Y2 = mom(-1, 3, 2);
			L I2 = CO[0] * X0 * 4 + CO[1] * X1 * 4 + CO[2] * X1 * Y1 + CO[3] * X0 * Y2;
			NEAR("quasi_2d_default", integral_quasi_crude<2>(poly2, ex, 1000), I2, 0, 1.2 * (b - a) * 4 * 0.25);
			NEAR("quasi_2d_alpha", integral_quasi_crude<2>(poly2, ex, 1000, 0.7548776662466927), integral_quasi_crude<2>(poly2, ex, 1000), 1e-3, 1e-2);
			vec<vec2, 3> e3 = {{a, b}, {-1, 3}, {0, 0.5}};
			const L Z1 = mom(0, 0.5L, 1), Z2 = mom(0, 0.5L, 2);
			L I3 = CO[0] * X0 * 2 + CO[1] * X1 * 2 + CO[2] * X1 * Y1 * Z1 + CO[3] * X0 * 4 * Z2;
			NEAR("quasi_3d_default", integral_quasi_crude<3>(poly3, e3, 2000), I3, 0, 0.4 * (b - a));
		}
	} });
}
SECTION(r04_sample) {
	for (unsigned N : {0u, 1u, 2u, 9u, 36u}) for (unsigned n = 1; n <= 3; ++n) for (int m : {2, 3, 6}) {
		if (!vf::begin("sample of %u values of %u variables, %d answers", N, n, m)) continue;
		Odo o{grid(m), n}; PRNG g = odo(o);
		std::vector<pdf_sampler> rv; for (unsigned i = 0; i < n; ++i) rv.push_back(pdf_sampler::uniform(i, i + 1.0 + i, g));
		auto f = [](const vec<real>& v) { real s = 0, w = 1; for (size_t i = 0; i < v.size(); ++i) { s += w * v[i] * v[i]; w *= 10; } return s; };
		auto want = [&](u64 i) { L s = 0, w = 1; for (unsigned j = 0; j < n; ++j) { double x = j + (1.0 + j) * value(o.g[i % m]); s += w * x * x; w *= 10; i /= m; } return s; };
		std::vector<real> r = sample_mc(f, rv, N);
		EQ("sample_size", r.size(), (size_t) N);
		for (unsigned i = 0; i < N && i < r.size(); ++i) NEAR("sample", r[i], want(i), 1e-10, 1e-10);
		if (N >= 2) {
			L mean = 0, ss = 0; for (unsigned i = 0; i < N; ++i) mean += want(i) / N; for (unsigned i = 0; i < N; ++i) ss += (want(i) - mean) * (want(i) - mean);
			o.n = 0;
			NEAR("error_propagation_mc", stats::error_propagation_mc(f, rv, N), sqrtl(ss / (N - 1)), 1e-8, 1e-8);
		}
	}
}
VF_MAIN
