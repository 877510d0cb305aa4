// Complete enumeration of small structured inputs.
#pragma once
#include <vector>
#include <cstddef>
// all words of exactly n letters over an alphabet, in lexicographic order
template<class T, class F> static void words(const std::vector<T>& a, size_t n, F f) {
	std::vector<size_t> ix(n, 0);
	std::vector<T> w(n);
	for (;;) {
		for (size_t i = 0; i < n; ++i) w[i] = a[ix[i]];
		f((const std::vector<T>&) w);
		size_t i = n;
		while (i > 0) { if (++ix[i - 1] < a.size()) break; ix[i - 1] = 0; --i; }
		if (i == 0) return;
	}
}
template<class T, class F> static void words_upto(const std::vector<T>& a, size_t n0, size_t n1, F f) {
	for (size_t n = n0; n <= n1; ++n) words(a, n, f);
}
#include <string>
#include <cstdio>
template<class V> static std::string show(const V& v) {
	std::string s = "{"; char b[40];
	for (size_t i = 0; i < v.size(); ++i) { snprintf(b, sizeof b, "%s%.9g", i ? "," : "", (double) v[i]); s += b; }
	return s + "}";
}
