// Text: reading data sets from streams, printing, textual representations which read back; ratios.
#include <sstream>
#include <iostream>
#include "common.h"
#include "enum.h"
#include "theoretica.h"
#include "core/ratio.h"
#include "utility.h"
using namespace theoretica;
typedef std::vector<real> V;
struct Capture { std::ostringstream s; std::streambuf* old; Capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };

// ---- readln: all line sequences ----
static void streams(const std::vector<std::string>& al, const std::vector<real>& val, int maxlen) {
	const std::string terms[] = {"", "END", "0"};
	for (int len = 0; len <= maxlen; ++len) {
		unsigned long tot = 1; for (int i = 0; i < len; ++i) tot *= al.size();
		for (unsigned long w = 0; w < tot; ++w) for (const std::string& term : terms) for (int nl = 0; nl < 2; ++nl) {
			std::string text; std::vector<std::string> lines; V want; unsigned long q = w; bool stop = false; size_t used = 0, pos = 0;
			for (int i = 0; i < len; ++i) {
				size_t k = q % al.size(); q /= al.size();
				text += al[k]; if (i + 1 < len || nl) text += "\n";
				if (!stop) { pos = text.size(); if (al[k] == term) stop = true; else if (val[k] == val[k]) want.push_back(val[k]); }
				(void) used;
			}
			if (!vf::begin("readln of \"%s\" until \"%s\"", text.c_str(), term.c_str())) continue;
			vec<real> got; std::istringstream in(text);
			{ Capture c; got = readln(in, term); }
			CHECKF("readln_count", got.size() == want.size(), "%zu values instead of %zu", (size_t) got.size(), want.size());
			for (size_t i = 0; i < want.size() && i < got.size(); ++i) EQ("readln_value", got[i], want[i]);
			// what follows the terminator is left in the stream
			if (stop) { std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECKF("readln_rest", rest == text.substr(pos), "left \"%s\"", rest.c_str()); }
			vf::state(vf::mix(w, len));
		}
	}
}
SECTION(u01_readln) { streams({"1.5", "-2,25", "", "abc", "END", "1e3", "0"}, {1.5, -2.25, NAN, NAN, NAN, 1000, 0}, vf::thorough() ? 6 : 4); }
SECTION(u01_parse) {
	// a parser of one's own, which may throw anything
	const std::string al[] = {"a", "bb", "throw", "", "stop"};
	for (int len = 0; len <= 5; ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= 5;
		for (int w = 0; w < tot; ++w) {
			std::string text; std::vector<int> want; int q = w; bool stop = false;
			for (int i = 0; i < len; ++i) { int k = q % 5; q /= 5; text += al[k] + "\n"; if (k == 4) stop = true; if (!stop && k < 2) want.push_back(k + 1); }
			if (!vf::begin("readln<int> of \"%s\"", text.c_str())) continue;
			std::istringstream in(text); vec<int> got; Capture c;
			got = readln<int>(in, "stop", [](std::string l) -> int { if (l == "throw") throw 3; return (int) l.size(); });
			CHECK("parse_count", got.size() == want.size());
			for (size_t i = 0; i < want.size() && i < got.size(); ++i) EQ("parse_value", got[i], want[i]);
		} }
}
SECTION(u01_cin) {
	for (int n = 0; n < 6; ++n) for (int t = 0; t < 3; ++t) {
		if (!vf::begin("standard input with %d lines, ending %d", n, t)) continue;
		std::string s; for (int i = 0; i < n; ++i) s += std::to_string(i) + ".5\n"; if (t == 1) s += "\n7\n"; if (t == 2) s += "END\n8\n";
		std::istringstream in(s); auto* old = std::cin.rdbuf(in.rdbuf()); std::cin.clear();
		vec<real> v; { Capture c; v = t == 2 ? readln("END") : readln(); }
		std::cin.rdbuf(old); std::cin.clear();
		EQ("cin_count", (int) v.size(), n); for (int i = 0; i < n && i < (int) v.size(); ++i) EQ("cin_value", v[i], i + 0.5);
	}
}
// ---- printing: one separator between arguments, newline only where promised ----
SECTION(u01_print) {
	const int a[] = {0, 1, -7, 123456};
	for (int x : a) for (int y : a) for (int z : a) for (int n = 1; n <= 3; ++n) {
		if (!vf::begin("print of %d of (%d, %d, %d)", n, x, y, z)) continue;
		std::string w = std::to_string(x); if (n > 1) w += " " + std::to_string(y); if (n > 2) w += " " + std::to_string(z);
		std::string p, l; std::ostringstream o, ol;
		{ Capture c; n == 1 ? print(x) : n == 2 ? print(x, y) : print(x, y, z); p = c.s.str(); }
		{ Capture c; n == 1 ? println(x) : n == 2 ? println(x, y) : println(x, y, z); l = c.s.str(); }
		{ Capture c; n == 1 ? fprint(o, x) : n == 2 ? fprint(o, x, y) : fprint(o, x, y, z); n == 1 ? fprintln(ol, x) : n == 2 ? fprintln(ol, x, y) : fprintln(ol, x, y, z); CHECK("fprint_leak", c.s.str().empty()); }
		CHECKF("print", p == w, "\"%s\"", p.c_str()); CHECKF("println", l == w + "\n", "\"%s\"", l.c_str());
		CHECKF("fprint", o.str() == w, "\"%s\"", o.str().c_str()); CHECKF("fprintln", ol.str() == w + "\n", "\"%s\"", ol.str().c_str());
		vf::state(vf::mix(x * 7 + y, z * 5 + n));
	}
	if (vf::begin("empty println")) { Capture c; println(); CHECK("println_empty", c.s.str() == "\n"); }
}
// ---- representations read back to the numbers they show ----
// the numbers of a text, in order; a sign separated by blanks belongs to the number after it
static V numbers(const std::string& s) {
	V r; size_t i = 0; int sg = 1;
	while (i < s.size()) {
		char c = s[i];
		if (isdigit((unsigned char) c) || (c == '.' && i + 1 < s.size() && isdigit((unsigned char) s[i + 1]))) {
			size_t j = i; while (j < s.size() && (isdigit((unsigned char) s[j]) || s[j] == '.')) ++j;
			if (j + 1 < s.size() && s[j] == 'e' && ((s[j + 1] == '-' || s[j + 1] == '+') && j + 2 < s.size() && isdigit((unsigned char) s[j + 2]))) { j += 2; while (j < s.size() && isdigit((unsigned char) s[j])) ++j; }
			r.push_back(sg * strtod(s.substr(i, j - i).c_str(), nullptr)); sg = 1; i = j;
		} else { if (c == '-') sg = -sg; else if (c != ' ' && c != '+') sg = 1; ++i; }
	}
	return r;
}
static void shows(const char* tag, const std::string& text, const V& want) {
	V got = numbers(text);
	CHECKF(std::string(tag) + "_count", got.size() == want.size(), "\"%s\" shows %zu numbers instead of %zu", text.c_str(), got.size(), want.size());
	for (size_t i = 0; i < want.size() && i < got.size(); ++i) { ++vf::S().checks; vf::state(vf::mix(vf::hd(got[i]), i)); if (!vf::near_(got[i], want[i], 2e-5, 1e-12)) vf::fail(tag, "\"%s\" shows %g instead of %g at position %zu", text.c_str(), got[i], want[i], i); }
}
template<class T> static std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
static const real AL[] = {0, 2, -3.5, 0.25, -1e-5, 123456, -2e10};
SECTION(u01_vectors) {
	for (int n = 0; n <= (vf::thorough() ? 5 : 4); ++n) { unsigned long tot = 1; for (int i = 0; i < n; ++i) tot *= 7;
		for (unsigned long w = 0; w < tot; ++w) {
			if (!vf::begin("vector of size %d, word %lu", n, w)) continue;
			V x; unsigned long q = w; for (int i = 0; i < n; ++i) { x.push_back(AL[q % 7]); q /= 7; }
			vec<real> v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = x[i];
			shows("vec", str(v), x); shows("vec_to_string", v.to_string(), x); shows("vec_semicolon", v.to_string(" ; "), x); shows("vec_bare", v.to_string(" ", false), x);
			std::string bare = v.to_string(" ", false); std::istringstream in(bare); real y; int k = 0; while (in >> y) { if (k < n) NEAR("vec_bare_stream", y, x[k], 2e-5, 0); ++k; } EQ("vec_bare_stream_count", k, n);
			if (n == 3) { vec<real, 3> f = {x[0], x[1], x[2]}; shows("vec3", str(f), x); shows("vec3_bare", f.to_string(" ", false), x); }
			if (n == 2) {
				complex<> z(x[0], x[1]); shows("complex", str(z), x); dual d(x[0], x[1]); shows("dual", str(d), x); phasor<real> p(3, 0.5); shows("phasor", str(p), {3, 0.5});
			}
			if (n == 3) { dual2 d(x[0], x[1], x[2]); V want = x; V got = numbers(d.to_string("u", "v")); CHECK("dual2_count", got.size() == 3); for (size_t i = 0; i < 3 && i < got.size(); ++i) NEAR("dual2", got[i], x[i], 2e-5, 1e-12); }
			if (n == 4) { quat<real> z(x[0], x[1], x[2], x[3]); shows("quat", str(z), x); }
			if (n >= 1) { multidual<> m(x[0], vec<real>{1, -2}); shows("multidual", str(m), {x[0], 1, -2}); }
		} }
}
// a vector of vectors keeps its nesting, sizes can be told from the text
SECTION(u01_polynomials) {
	for (int n = 1; n <= 4; ++n) { unsigned long tot = 1; for (int i = 0; i < n; ++i) tot *= 7;
		for (unsigned long w = 0; w < tot; ++w) {
			V x; unsigned long q = w; for (int i = 0; i < n; ++i) { x.push_back(AL[q % 7]); q /= 7; }
			if (!vf::begin("polynomial of %d coefficients, word %lu", n, w)) continue;
			polynomial<real> p(std::vector<real>{}); p.coeff.resize(n); for (int i = 0; i < n; ++i) p.coeff[i] = x[i];
			std::string s = p.to_string("x", "^");
			// each term is  +- c[*x^k], in any order; absent terms vanish
			V c(n, 0); V all = numbers(s); size_t pos = 0; (void) all; std::string t;
			for (char ch : s) if (ch != ' ') t += ch;
			bool ok = true; pos = 0; int sgn = 1;
			while (pos < t.size() && ok) {
				sgn = 1; if (t[pos] == '+') ++pos; else if (t[pos] == '-') { sgn = -1; ++pos; }
				char* e; real k = strtod(t.c_str() + pos, &e); if (e == t.c_str() + pos) { ok = false; break; }
				pos = e - t.c_str(); int d = 0;
				if (pos < t.size() && t[pos] == '*') { ++pos; if (pos >= t.size() || t[pos] != 'x') { ok = false; break; } ++pos; d = 1; if (pos < t.size() && t[pos] == '^') { d = strtol(t.c_str() + pos + 1, &e, 10); pos = e - t.c_str(); } }
				if (d < 0 || d >= n) { ok = false; break; }
				c[d] += sgn * k;
			}
			CHECKF("polynomial_text", ok, "\"%s\"", s.c_str());
			for (int i = 0; i < n; ++i) CHECKF("polynomial_coefficient", vf::near_(c[i], x[i], 2e-5, 1e-12), "\"%s\" has %g x^%d instead of %g", s.c_str(), c[i], i, x[i]);
			CHECKF("polynomial_stream", str(p) == p.to_string(), "\"%s\"", str(p).c_str());
			vf::state(vf::mix(w, n));
		} }
}
template<class M> static void matrix_text(const M& m, unsigned r, unsigned c, const V& x) {
	shows("mat", str(m), x); shows("mat_separator", m.to_string(" ; "), x);
	for (int par = 0; par < 2; ++par) {
		std::istringstream in(m.to_string(" ", par)); std::string line; unsigned i = 0;
		while (std::getline(in, line)) { V row = numbers(line); CHECKF("mat_row", row.size() == c, "row %u of a %ux%u matrix shows %zu numbers: \"%s\"", i, r, c, row.size(), line.c_str()); for (unsigned j = 0; j < c && j < row.size() && i * c + j < x.size(); ++j) NEAR("mat_row_value", row[j], x[i * c + j], 2e-5, 1e-12); ++i; }
		EQ("mat_rows", i, r);
	}
}
SECTION(u01_matrices) {
	for (unsigned r = 1; r <= 3; ++r) for (unsigned c = 1; c <= 3; ++c) for (unsigned k = 0; k < 49; ++k) {
		if (!vf::begin("%ux%u matrix, content %u", r, c, k)) continue;
		V x; for (unsigned i = 0; i < r * c; ++i) x.push_back(AL[(k % 7 * i + k / 7 + i * i) % 7]);
		mat<real> m(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = x[i * c + j];
		matrix_text(m, r, c, x);
		if (r == 2 && c == 3) { mat<real, 2, 3> s; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) s(i, j) = x[i * c + j]; matrix_text(s, r, c, x); }
		if (r == 3 && c == 2) { mat<real, 3, 2> s; for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) s(i, j) = x[i * c + j]; matrix_text(s, r, c, x); }
	}
}
SECTION(u01_tables) {
	for (int bins = 1; bins <= 5; ++bins) for (int w = 0; w < 64; ++w) {
		if (!vf::begin("histogram with %d bins, data %d", bins, w)) continue;
		V d; for (int i = 0; i < 3; ++i) d.push_back((w >> (2 * i)) & 3); histogram h(bins, 0, 4); for (real x : d) h.insert(x);
		for (int norm = 0; norm < 2; ++norm) for (int low = 0; low < 2; ++low) {
			V want; for (int b = 0; b < bins; ++b) { int n = 0; for (real x : d) if ((int) (x * bins / 4) == b) ++n; want.push_back((b + (low ? 0 : 0.5)) * 4.0 / bins); want.push_back(norm ? n / 3.0 : n); }
			shows("histogram", h.to_string(" ", norm, low), want);
		}
	}
	for (int steps = 1; steps <= 6; ++steps) for (int n = 1; n <= 3; ++n) {
		if (!vf::begin("ODE solution with %d steps in dimension %d", steps, n)) continue;
		vec<real> x0; x0.resize(n); for (int i = 0; i < n; ++i) x0[i] = i + 1;
		auto s = ode::solve_euler([](real t, vec<real> y) { return y * 0.5; }, x0, 0, steps, 1.0);
		V want; for (unsigned i = 0; i < s.t.size(); ++i) { want.push_back(s.t[i]); for (int j = 0; j < n; ++j) want.push_back(s.x[i][j]); }
		shows("ode", s.to_string(), want); int lines = 0; for (char c : s.to_string()) lines += c == '\n'; EQ("ode_lines", lines, (int) s.t.size());
	}
}
SECTION(u01_long) { // long streams, long lines, long texts
	for (int n : {10, 63, 64, 65, 100, 255, 256, 257, 1000, 5000}) for (int k = 0; k < 4; ++k) { if (!vf::begin("stream of %d lines, kind %d", n, k)) continue; std::string text; V want; for (int i = 0; i < n; ++i) { if (k == 1 && i % 3 == 1) text += "word\n"; else if (k == 2 && i % 5 == 2) text += "\n"; else { real v = ((i * 37) % 101 - 50) * 0.125; std::ostringstream o; o << v; text += o.str() + "\n"; want.push_back(v); } } text += k == 3 ? "END\n9\n8\n" : ""; std::istringstream in(text); vec<real> got; { Capture c; got = readln(in, "END"); } CHECKF("readln_count", got.size() == want.size(), "%zu values instead of %zu", (size_t) got.size(), want.size()); bool ok = true; for (size_t i = 0; i < want.size() && i < got.size(); ++i) ok = ok && got[i] == want[i]; CHECK("readln_value", ok); if (k == 3) { std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECK("readln_rest", rest == "9\n8\n"); } }
	for (int w = 1; w <= 300; w += w < 40 ? 1 : 13) { if (!vf::begin("number of %d digits", w)) continue; std::string d = "3."; for (int i = 1; i < w; ++i) d += (char) ('0' + (i * 7) % 10); std::string c = d; c[1] = ','; std::istringstream in(std::string(w, ' ') + d + "\n-" + d + "\n" + c + "\n"); vec<real> got; { Capture k; got = readln(in, "END"); } EQ("count", (int) got.size(), 3); real v = std::strtod(d.c_str(), nullptr); if (got.size() == 3) { EQ("value", got[0], v); EQ("value", got[1], -v); EQ("decimal comma", got[2], v); } }
	for (int e = -300; e <= 300; e += 4) { if (!vf::begin("numbers of magnitude 1e%d", e)) continue; char b[64]; snprintf(b, sizeof b, "-1.25e%d\n7e%+d\n", e, e); std::istringstream in(b); vec<real> got; { Capture k; got = readln(in, "END"); } EQ("count", (int) got.size(), 2); if (got.size() == 2) { snprintf(b, sizeof b, "-1.25e%d", e); EQ("value", got[0], std::strtod(b, nullptr)); } real s = std::strtod(b, nullptr); vec<real> v = {s, -s, 3 * s}; auto all = [&](const char* t, const std::string& x, const V& w) { V g = numbers(x); CHECKF(t, g.size() == w.size(), "\"%s\"", x.c_str()); for (size_t i = 0; i < w.size() && i < g.size(); ++i) NEAR(t, g[i], w[i], 2e-5, 0); }; all("vector", str(v), {s, -s, 3 * s}); if (e > -15) { all("complex", str(complex<>(s, 2 * s)), {s, 2 * s}); mat<real> m(2, 2); m(0, 0) = s; m(0, 1) = -s; m(1, 0) = 2 * s; m(1, 1) = 5 * s; all("matrix", str(m), {s, -s, 2 * s, 5 * s}); } }
	for (unsigned r = 1; r <= 12; ++r) for (unsigned c = 1; c <= 12; ++c) { if (r <= 3 && c <= 3) continue; if (!vf::begin("%ux%u matrix", r, c)) continue; V x; mat<real> m(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) { x.push_back(AL[(i * 3 + j * 5) % 7]); m(i, j) = x.back(); } matrix_text(m, r, c, x); }
	for (int n : {1, 2, 7, 33, 100}) for (int d : {1, 2, 5, 9}) { if (!vf::begin("ODE solution with %d steps in dimension %d", n, d)) continue; vec<real> x0; x0.resize(d); for (int i = 0; i < d; ++i) x0[i] = i + 1; auto s = ode::solve_euler([](real t, vec<real> y) { return y * 0.01; }, x0, 0, n, 1.0); V want; for (unsigned i = 0; i < s.t.size(); ++i) { want.push_back(s.t[i]); for (int j = 0; j < d; ++j) want.push_back(s.x[i][j]); } shows("ode", s.to_string(), want); }
	for (int bins : {6, 10, 33, 100}) if (vf::begin("histogram with %d bins", bins)) { histogram h(bins, -1, 3); V d; for (int i = 0; i < 3 * bins; ++i) { h.insert(-1 + 4.0 * ((i * i) % bins + 0.5) / bins); } V want; for (int b = 0; b < bins; ++b) { int n = 0; for (int i = 0; i < 3 * bins; ++i) n += (i * i) % bins == b; want.push_back(-1 + (b + 0.5) * 4.0 / bins); want.push_back(n); } shows("histogram", h.to_string(" ", false, false), want); }
}
static std::string swap_sep(std::string s, const std::string& from, const std::string& to) { size_t p = 0; while ((p = s.find(from, p)) != std::string::npos) { s.replace(p, from.size(), to); p += to.size(); } return s; }
static size_t count_sep(const std::string& s, const std::string& x) { size_t n = 0, p = 0; while ((p = s.find(x, p)) != std::string::npos) { ++n; p += x.size(); } return n; }
SECTION(u01_separators) { // the caller's separator stands between the fields of every row, and nothing else changes
	for (const std::string sep : {"@", "<|>", ",", "_:_"}) {
		for (unsigned n = 1; n <= 45; ++n) if (vf::begin("vector of %u elements separated by %s", n, sep.c_str())) { vec<real> v(n); for (unsigned i = 0; i < n; ++i) v[i] = AL[(i * 5) % 7]; for (int par = 0; par < 2; ++par) { std::string s = v.to_string(sep, par), d = v.to_string("#", par); CHECKF("separators", count_sep(d, "#") == n - 1 && count_sep(s, sep) == n - 1, "%s", s.c_str()); CHECKF("same text", swap_sep(s, sep, "#") == d, "%s", s.c_str()); shows("vector", s, [&]() { V w; for (unsigned i = 0; i < n; ++i) w.push_back(v[i]); return w; }()); } }
		for (unsigned r = 1; r <= 12; ++r) for (unsigned c = 1; c <= 12; ++c) if (vf::begin("%ux%u matrix separated by %s", r, c, sep.c_str())) { mat<real> m(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = AL[(i * 3 + j * 5) % 7]; for (int par = 0; par < 2; ++par) { std::string s = m.to_string(sep, par), d = m.to_string("#", par); std::istringstream in(s); std::string line; unsigned k = 0; while (std::getline(in, line)) { CHECKF("separators in a row", count_sep(line, sep) >= c - 1, "%s", line.c_str()); V row = numbers(line); CHECKF("elements in a row", row.size() == c, "%s", line.c_str()); ++k; } EQ("rows", k, r); CHECKF("same text", swap_sep(s, sep, "#") == d, "%s", s.c_str()); } }
		for (int d : {1, 2, 3, 4, 5, 9, 14}) for (int n : {1, 3, 20}) if (vf::begin("solution in dimension %d with %d steps separated by %s", d, n, sep.c_str())) { vec<real> x0; x0.resize(d); for (int i = 0; i < d; ++i) x0[i] = i + 1; auto s = ode::solve_euler([](real t, vec<real> y) { return y * 0.25; }, x0, 0, n, 1.0); std::istringstream in(s.to_string(sep)); std::string line; size_t k = 0; while (std::getline(in, line)) { CHECKF("separators in a row", (int) count_sep(line, sep) == d, "%s", line.c_str()); V row = numbers(line); CHECKF("fields in a row", (int) row.size() == d + 1, "%s", line.c_str()); if (k < s.t.size() && (int) row.size() == d + 1) { NEAR("time", row[0], s.t[k], 2e-5, 1e-12); for (int j = 0; j < d; ++j) NEAR("component", row[j + 1], s.x[k][j], 2e-5, 1e-12); } ++k; } EQ("rows", k, (size_t) s.t.size()); CHECK("same text", swap_sep(s.to_string(sep), sep, "#") == s.to_string("#")); CHECK("default", str(s) == s.to_string() && (std::string) s == s.to_string()); }
		for (int bins : {1, 2, 7, 12, 50}) if (vf::begin("histogram of %d bins separated by %s", bins, sep.c_str())) { histogram h(bins, -2, 2); for (int i = 0; i < 40; ++i) h.insert(-2 + i * 0.1); for (int norm = 0; norm < 2; ++norm) for (int low = 0; low < 2; ++low) { std::string s = h.to_string(sep, norm, low); std::istringstream in(s); std::string line; int k = 0; while (std::getline(in, line)) { EQ("separators in a row", (int) count_sep(line, sep), 1); ++k; } EQ("rows", k, bins); CHECK("same text", swap_sep(s, sep, "#") == h.to_string("#", norm, low)); } }
	}
	for (unsigned n = 1; n <= 60; ++n) if (vf::begin("polynomial of %u terms", n)) { polynomial<real> p; for (unsigned i = 0; i < n; ++i) p.coeff.push_back(i % 4 == 3 ? 0 : (i % 2 ? -1.5 : 2) + i); std::string s = p.to_string("Q", "**"), d = p.to_string("y", "^"); size_t terms = 0; for (unsigned i = 1; i < n; ++i) terms += p.coeff[i] != 0; EQ("unknowns", count_sep(s, "Q"), terms); EQ("powers", count_sep(s, "**"), terms); CHECK("same text", swap_sep(swap_sep(s, "**", "^"), "Q", "y") == d); }
}
// ---- U02: ratios ----
typedef ratio<long> Q;
static bool eqr(const Q& q, long n, long d) { return (__int128) q.num * d == (__int128) n * q.den && (q.den == 0) == (d == 0); }
SECTION(u02_ratio) {
	const int R = vf::thorough() ? 9 : 5;
	for (long a = -R; a <= R; ++a) for (long b = -R; b <= R; ++b) for (long c = -R; c <= R; ++c) for (long d = -R; d <= R; ++d) {
		if (!b || !d) continue;
		if (!vf::begin("%ld/%ld and %ld/%ld", a, b, c, d)) continue;
		const Q x(a, b), y(c, d);
		CHECK("ratio_add", eqr(x + y, a * d + c * b, b * d)); CHECK("ratio_sub", eqr(x - y, a * d - c * b, b * d));
		CHECK("ratio_mul", eqr(x * y, a * c, b * d)); if (c) CHECK("ratio_div", eqr(x / y, a * d, b * c));
		CHECK("ratio_factor", eqr(x * c, a * c, b)); CHECK("ratio_divisor", eqr(x / d, a, b * d));
		CHECK("operands", x.num == a && x.den == b && y.num == c && y.den == d);
		Q z = x + y; NEAR("ratio_eval_as", z.eval_as<double>(), (double) a / b + (double) c / d, 1e-12, 1e-12);
		EQ("ratio_eval", z.eval(), z.num / z.den); EQ("ratio_cast", (long) z, z.num / z.den);
		CHECKF("ratio_text", x.to_string() == std::to_string(a) + "/" + std::to_string(b), "\"%s\"", x.to_string().c_str());
		CHECK("ratio_stream", str(x) == x.to_string());
		// ring laws on values
		Q s1 = x * (y + x), s2 = x * y + x * x; CHECK("ratio_distributive", (__int128) s1.num * s2.den == (__int128) s2.num * s1.den);
		vf::state(vf::mix(vf::mix(z.num, z.den), c));
	}
	{ // larger numbers: exact as long as the products fit
		std::vector<long> big = {1, 7, 46341, -65536, 1000003, -2147483648L, 2147483647L, 1L << 30}; for (long a : big) for (long b : big) for (long c : big) for (long d : big) { if (!vf::begin("%ld/%ld and %ld/%ld", a, b, c, d)) continue; __int128 n = (__int128) a * d + (__int128) c * b, m = (__int128) a * d - (__int128) c * b, q = (__int128) b * d; auto fit = [](__int128 v) { return v >= LONG_MIN && v <= LONG_MAX; }; const Q x(a, b), y(c, d); if (fit(n) && fit(q)) CHECK("ratio_add", eqr(x + y, (long) n, (long) q)); if (fit(m) && fit(q)) CHECK("ratio_sub", eqr(x - y, (long) m, (long) q)); CHECK("ratio_mul", eqr(x * y, a * c, b * d)); CHECK("ratio_div", eqr(x / y, a * d, b * c)); CHECK("ratio_factor", eqr(x * c, a * c, b)); CHECK("ratio_divisor", eqr(x / d, a, b * d)); Q z = x; NEAR("ratio_value", z.eval_as<double>(), (long double) a / b, 1e-15, 0); CHECKF("ratio_text", x.to_string() == std::to_string(a) + "/" + std::to_string(b), "\"%s\"", x.to_string().c_str()); CHECK("operands", x.num == a && x.den == b); } }
	for (int e = -200; e <= 200; e += 10) { if (!vf::begin("real ratios of magnitude 2^%d", e)) continue; double s = std::ldexp(1.0, e); typedef ratio<double> QD; QD x(3 * s, 7), y(-2, 5 * s); auto v = [](const QD& q) { return (long double) q.num / q.den; }; NEAR("sum", v(x + y), 3.0L * s / 7 - 0.4L / s, 1e-13, 0); NEAR("difference", v(x - y), 3.0L * s / 7 + 0.4L / s, 1e-13, 0); NEAR("product", v(x * y), -6.0L / 35, 1e-13, 0); NEAR("quotient", v(x / y), 3.0L * s / 7 / (-0.4L / s), 1e-13, 0); NEAR("value", x.eval(), 3.0L * s / 7, 1e-14, 0); }
	for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) for (int k = 1; k <= 3; ++k) {
		if (!vf::begin("rational functions (%d + x)/(x + 10) and %d/(x^2 + %d)", a, b, k)) continue;
		typedef polynomial<real> PL; ratio<PL> f(PL{(real) a, 1}, PL{10, 1}), g(PL{(real) b}, PL{(real) k, 0, 1});
		for (int i = -4; i <= 4; ++i) {
			real x = i * 0.75, F = (a + x) / (x + 10), G = b / (x * x + k); auto s = f + g, m = f * g, d = f - g;
			NEAR("rational_add", s.num(x) / s.den(x), F + G, 1e-10, 1e-10); NEAR("rational_sub", d.num(x) / d.den(x), F - G, 1e-10, 1e-10); NEAR("rational_mul", m.num(x) / m.den(x), F * G, 1e-10, 1e-10);
			if (b && F) { auto q = f / g; NEAR("rational_div", q.num(x) / q.den(x), F / G, 1e-10, 1e-10); }
		}
	}
	for (int n = -6; n <= 6; ++n) for (int d = 1; d <= 4; ++d) {
		if (!vf::begin("mixed ratio %d/%g", n, d * 0.5)) continue;
		ratio<int, double> r(n, d * 0.5); NEAR("mixed_eval", r.eval(), n / (d * 0.5), 1e-14, 0); NEAR("mixed_eval_as", r.eval_as<float>(), n / (d * 0.5), 1e-6, 0); NEAR("mixed_cast", (double) r, n / (d * 0.5), 1e-14, 0);
		ratio<int, double> e; CHECK("default", e.num == 0 && e.den == 0);
	}
}
VF_MAIN
