// Bounded-exhaustive exploration runtime shared by all harnesses.
//
// A harness registers SECTIONs.  A section enumerates a bounded space completely: every element
// is a *case* (one trace executed on the real code), inside which the library is called and every
// observation is compared with a reference (CHECK*/NEAR*: one *transition* each).  Distinct
// observed states are counted through state().  Every case has a number and a description; a
// crash, a hang or a failed comparison is reported with both and is replayed alone before it is
// believed (run.py does that with --only N).
#pragma once
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vf {

typedef void (*Fn)();
struct Section { const char* name; Fn fn; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char* n, Fn f) { sections().push_back({n, f}); } };
#define SECTION(name) static void sec_##name(); \
	static vf::Reg reg_##name(#name, sec_##name); static void sec_##name()

struct Shared { volatile uint64_t beat;
	volatile uint64_t caseno;          // number of the running case
	volatile int done;
	char text[1024];                   // its description
	char tag[256];
};

struct State {
	Shared* sh = nullptr;
	bool thorough = false;
	uint64_t only = 0;                 // 0 = all cases
	uint64_t cases = 0, checks = 0, fails = 0, run = 0;
	std::vector<uint64_t> tab; size_t used = 0;  // distinct states, open addressing
	std::vector<std::string> samples;
	std::map<std::string, int> tagfails;
	std::map<std::string, uint64_t> counters;
	FILE* out = nullptr;
	uint64_t next_sample = 1;
};
inline State& S() { static State s; return s; }
inline bool thorough() { return S().thorough; }

inline std::string fmtv(const char* f, va_list ap) {
	char b[900]; vsnprintf(b, sizeof b, f, ap); return b;
}

// Start a case.  Returns false when the case is to be skipped (replay of another case).
__attribute__((format(printf, 1, 2)))
inline bool begin(const char* f, ...) {
	State& s = S();
	++s.cases;
	s.sh->caseno = s.cases;
	if (s.only && s.only != s.cases) return false;
	s.sh->text[255] = 0;
	va_list ap; va_start(ap, f);
	vsnprintf(s.sh->text, sizeof s.sh->text, f, ap);
	va_end(ap);
	++s.run;
	if (s.cases == s.next_sample && s.samples.size() < 12) {
		s.samples.push_back(s.sh->text); s.next_sample *= 4;
	}
	return true;
}

// cheap variant: description supplied lazily for hot loops
inline bool begin_fast(const char* what, double a = 0, double b = 0) {
	State& s = S();
	++s.cases;
	s.sh->caseno = s.cases;
	if (s.only && s.only != s.cases) return false;
	++s.run;
	char* t = s.sh->text;
	size_t n = strlen(what);
	if (n > 200) n = 200;
	memcpy(t, what, n); t[n] = 0;
	memcpy(t + 256, &a, 8); memcpy(t + 264, &b, 8); t[255] = 1;
	if (s.cases == s.next_sample && s.samples.size() < 12) {
		char buf[300]; snprintf(buf, sizeof buf, "%s a=%.17g b=%.17g", t, a, b);
		s.samples.push_back(buf); s.next_sample *= 4;
	}
	return true;
}
inline std::string case_text(Shared* sh) {
	if (sh->text[255] == 1 && strlen(sh->text) < 255) {
		double a, b; memcpy(&a, sh->text + 256, 8); memcpy(&b, sh->text + 264, 8);
		char buf[400]; snprintf(buf, sizeof buf, "%s a=%.17g b=%.17g", sh->text, a, b);
		return buf;
	}
	return sh->text;
}

inline std::string esc(const std::string& x) {
	std::string r;
	for (char c : x) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char) c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

inline void report(FILE* out, const char* kind, const std::string& tag, uint64_t no,
	const std::string& cas, const std::string& detail) {
	fprintf(out, "{\"kind\":\"%s\",\"tag\":\"%s\",\"caseno\":%llu,\"case\":\"%s\",\"detail\":\"%s\"}\n",
		kind, esc(tag).c_str(), (unsigned long long) no, esc(cas).c_str(), esc(detail).c_str());
	fflush(out);
}

__attribute__((format(printf, 2, 3)))
inline void fail(const std::string& tag, const char* f, ...) {
	State& s = S();
	++s.fails;
	int& n = s.tagfails[tag];
	if (++n > 4) return;
	va_list ap; va_start(ap, f);
	std::string d = fmtv(f, ap);
	va_end(ap);
	report(s.out, "fail", tag, s.cases, case_text(s.sh), d);
}

inline void count(const char* what, uint64_t n = 1) { S().counters[what] += n; }

// ---- distinct states --------------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
	return h;
}
inline bool state(uint64_t h) {
	State& s = S();
	if (!h) h = 1;
	if (s.tab.empty()) s.tab.assign(1 << 12, 0);
	if (s.used * 2 > s.tab.size()) {
		if (s.tab.size() >= (size_t(1) << 25)) return false;   // count saturates (reported as a lower bound)
		std::vector<uint64_t> o(s.tab.size() * 2, 0); o.swap(s.tab);
		size_t m = s.tab.size() - 1;
		for (uint64_t x : o) if (x) { size_t i = x & m; while (s.tab[i]) i = (i + 1) & m; s.tab[i] = x; }
	}
	size_t m = s.tab.size() - 1, i = h & m;
	while (s.tab[i]) { if (s.tab[i] == h) return false; i = (i + 1) & m; }
	s.tab[i] = h; ++s.used;
	return true;
}
// hash of a value, coarse enough not to depend on last-bit rounding
inline uint64_t hd(double x) {
	if (x != x) return 0x7ff8;
	if (x == 0) return 3;
	if (std::isinf(x)) return x > 0 ? 11 : 13;
	int e; double m = std::frexp(x, &e);
	return mix((uint64_t) (int64_t) std::llround(m * 1048576.0), (uint64_t) (int64_t) e);
}

// ---- comparisons --------------------------------------------------------------------------
inline bool isnan_(double x) { return x != x; }
inline bool near_(double a, double b, double rel, double abs_) {
	if (a != a || b != b) return (a != a) && (b != b);
	if (a == b) return true;
	if (std::isinf(a) || std::isinf(b)) return false;
	double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
	return std::fabs(a - b) <= abs_ + rel * m;
}
#define CHECK(tag, cond) do { ++vf::S().checks; if (!(cond)) vf::fail(tag, "%s", #cond); } while (0)
#define CHECKF(tag, cond, ...) do { ++vf::S().checks; if (!(cond)) vf::fail(tag, __VA_ARGS__); } while (0)
#define NEAR(tag, got, want, rel, abs_) do { ++vf::S().checks; double g_ = (double) (got), w_ = (double) (want); \
	vf::state(vf::mix(vf::hd(g_), (uint64_t) __LINE__)); \
	if (!vf::near_(g_, w_, rel, abs_)) vf::fail(tag, "got %.17g, expected %.17g (%s)", g_, w_, #got); } while (0)
#define EQ(tag, got, want) do { ++vf::S().checks; auto g_ = (got); auto w_ = (want); \
	vf::state(vf::mix(vf::hd((double) g_), (uint64_t) __LINE__)); \
	if (!(g_ == w_)) vf::fail(tag, "got %.17g, expected %.17g (%s)", (double) g_, (double) w_, #got); } while (0)
#define ISNAN(tag, got) do { ++vf::S().checks; double g_ = (double) (got); \
	if (g_ == g_) vf::fail(tag, "got %.17g, expected NaN (%s)", g_, #got); } while (0)

// ---- process control ------------------------------------------------------------------------
// a long case is still making progress
inline void alive() { S().sh->beat = S().sh->beat + 1; }
inline int run_section(const Section& sec, FILE* out, double stall, double budget) {
	State& s = S();
	s.sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(s.sh, 0, sizeof *s.sh);
	s.out = out;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		sec.fn();
		fprintf(out, "{\"kind\":\"stats\",\"cases\":%llu,\"run\":%llu,\"checks\":%llu,\"states\":%llu,\"fails\":%llu,\"counters\":{",
			(unsigned long long) s.cases, (unsigned long long) s.run, (unsigned long long) s.checks,
			(unsigned long long) s.used, (unsigned long long) s.fails);
		bool first = true;
		for (auto& c : s.counters) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long) c.second); first = false; }
		fprintf(out, "},\"samples\":[");
		for (size_t i = 0; i < s.samples.size(); ++i) fprintf(out, "%s\"%s\"", i ? "," : "", esc(s.samples[i]).c_str());
		fprintf(out, "]}\n");
		fflush(out);
		s.sh->done = 1;
		_exit(0);
	}
	uint64_t last = ~0ull; double idle = 0, total = 0;
	for (;;) {
		int st; pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) {
			if (s.sh->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
			char d[128];
			if (WIFSIGNALED(st)) snprintf(d, sizeof d, "terminated by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
			else snprintf(d, sizeof d, "exited with status %d (sanitizer report or uncaught exception)", WEXITSTATUS(st));
			report(out, "crash", "crash", s.sh->caseno, case_text(s.sh), d);
			return 0;
		}
		usleep(20000); idle += 0.02; total += 0.02;
		if (s.sh->caseno + s.sh->beat != last) { last = s.sh->caseno + s.sh->beat; idle = 0; }
		if (idle > stall) {
			kill(pid, SIGKILL); waitpid(pid, &st, 0);
			char d[128]; snprintf(d, sizeof d, "case did not finish within %.0f s", stall);
			report(out, "hang", "hang", s.sh->caseno, case_text(s.sh), d);
			return 0;
		}
		if (total > budget) {
			kill(pid, SIGKILL); waitpid(pid, &st, 0);
			char d[160]; snprintf(d, sizeof d, "the cases of this section need far longer than they should: stopped after %.0f s", budget);
			report(out, "hang", "budget", s.sh->caseno, case_text(s.sh), d);
			return 0;
		}
	}
}

inline int main_(int argc, char** argv) {
	const char* name = nullptr; const char* outp = nullptr; double stall = 30, budget = 1e9;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--list") { for (auto& x : sections()) puts(x.name); return 0; }
		else if (a == "--section") name = argv[++i];
		else if (a == "--out") outp = argv[++i];
		else if (a == "--thorough") S().thorough = true;
		else if (a == "--only") S().only = strtoull(argv[++i], 0, 10);
		else if (a == "--budget") budget = atof(argv[++i]);
		else if (a == "--stall") stall = atof(argv[++i]);
	}
	FILE* out = outp ? fopen(outp, "w") : stdout;
	for (auto& x : sections())
		if (!name || strcmp(name, x.name) == 0) run_section(x, out, stall, budget);
	if (outp) fclose(out);
	return 0;
}

} // namespace vf

#define VF_MAIN int main(int argc, char** argv) { return vf::main_(argc, argv); }
extern "C" const char* __asan_default_options();
extern "C" __attribute__((weak)) const char* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" __attribute__((weak)) const char* __ubsan_default_options();
extern "C" __attribute__((weak)) const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }
