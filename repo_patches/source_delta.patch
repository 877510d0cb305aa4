From 5867f047f697ddba228bfaadbba5b93916215d9e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:11:05 +0000
Subject: [PATCH 001/145] fix: isqrt and icbrt divide by zero for the largest
 unsigned value

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5d98a0f..767b308 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -55,7 +55,7 @@ namespace theoretica {
 	inline UnsignedIntType isqrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
@@ -95,7 +95,7 @@ namespace theoretica {
 	inline UnsignedIntType icbrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
-- 
2.43.0


From 2ffbf14416aabec55c28cd8dc6cbc7165fce89bc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:11:05 +0000
Subject: [PATCH 002/145] fix: pad2 overflows a 32-bit shift for arguments
 above 2^30

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 767b308..73b7166 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -587,11 +587,11 @@ namespace theoretica {
 				// Check if x is a power of 2
 				for (int j = 0; j < i; ++j)
 					if(x & ((UnsignedIntType) 1 << j))
-						return (1 << (bit + 1));
+						return ((UnsignedIntType) 1 << (bit + 1));
 			}
 		}
 
-		return (1 << bit);
+		return ((UnsignedIntType) 1 << bit);
 	}
 
 
-- 
2.43.0


From 63b64ccc759ecb70eaf4d1c2a002a3c4c4085e36 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 003/145] fix: binomial_coeff overflows in the intermediate
 factorials

---
 src/core/real_analysis.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 73b7166..eb46de1 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1235,12 +1235,20 @@ namespace theoretica {
 
 		// TO-DO Check out of range
 
+		// Use symmetry to reduce the number of factors
+		if(m > n - m)
+			m = n - m;
+
 		IntType res = 1;
 
-		for (unsigned int i = n; i > m; --i)
-			res *= i;
+		// Each partial result is itself a binomial coefficient,
+		// the division is split to avoid intermediate overflow
+		for (unsigned int i = 1; i <= m; ++i) {
+			const IntType k = n - m + i;
+			res = (res / i) * k + ((res % i) * k) / i;
+		}
 
-		return res / fact(n - m);
+		return res;
 	}
 
 
-- 
2.43.0


From 5cab280a39dc2d0b9df3ec7dcf338789d13d1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 004/145] fix: bit_rotate by zero shifts by the full width of
 the type

---
 src/core/bit_op.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/bit_op.h b/src/core/bit_op.h
index 2a03594..9b73feb 100644
--- a/src/core/bit_op.h
+++ b/src/core/bit_op.h
@@ -77,7 +77,7 @@ namespace theoretica {
 	inline TH_CONSTEXPR UnsignedIntType
 	bit_rotate(UnsignedIntType x, unsigned int i) {
 
-		return (x << i) | (x >> ((sizeof(UnsignedIntType) * 8) - i));
+		return i ? ((x << i) | (x >> ((sizeof(UnsignedIntType) * 8) - i))) : x;
 	}
 
 
-- 
2.43.0


From 476d4a7fc4c8d7ba444c18a4891511d7e3554f90 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:16 +0000
Subject: [PATCH 005/145] fix: floor truncates towards zero below -1

---
 src/core/real_analysis.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index eb46de1..8e09d96 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -270,12 +270,9 @@ namespace theoretica {
 	/// e.g. floor(-0.3) = -1
 	TH_CONSTEXPR inline int floor(real x) {
 
-		if(x < 0 && x > -1)
-			return -1;
-
 		// Compute the biggest integer number
 		// that is smaller than x
-		return x - (int(x) % 1);
+		return (x < int(x)) ? int(x) - 1 : int(x);
 	}
 
 
-- 
2.43.0


From c2f93adf716af88245fdc82a4e6970d17ae276f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 006/145] fix: root of a negative number recurses without end

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 8e09d96..b7137d6 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -826,6 +826,10 @@ namespace theoretica {
 		if(n == 3)
 			return cbrt(x);
 
+		// Odd roots are odd functions
+		if(x < 0)
+			return -root(-x, n);
+
 		if(x < 1) {
 
 			if(x == 0)
-- 
2.43.0


From a735b082b8ac393e616c75eb99b66c76402e0116 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 007/145] fix: acos of negative zero is -PI/2

---
 src/core/real_analysis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index b7137d6..604bfd1 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1082,6 +1082,9 @@ namespace theoretica {
 			return nan();
 		}
 
+		if(x == 0)
+			return PI2;
+
 		if(x < 0)
 			return atan(sqrt(1 - x * x) / x) + PI;
 		else
-- 
2.43.0


From adc69becc3511a600374023b88773c0de99168d4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 008/145] fix: atan2 is wrong outside the first quadrant

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 604bfd1..48aa753 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1112,9 +1112,9 @@ namespace theoretica {
 		}
 
 		if(x > 0) {
-			return sgn(y) * atan(y / x);
+			return atan(y / x);
 		} else {
-			return sgn(y) * atan(y / -x) + PI2;
+			return (y >= 0) ? atan(y / x) + PI : atan(y / x) - PI;
 		}
 	}
 
-- 
2.43.0


From 402949a16d3fa77786bd2dd43ab6928b1e181a98 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 009/145] fix: asinh loses all digits for negative arguments

---
 src/core/real_analysis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 48aa753..6df7721 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1161,6 +1161,11 @@ namespace theoretica {
 
 	/// Compute the inverse hyperbolic sine
 	inline real asinh(real x) {
+
+		// asinh is odd: avoid the cancellation for negative x
+		if(x < 0)
+			return -asinh(-x);
+
 		return ln(x + sqrt(square(x) + 1));
 	}
 
-- 
2.43.0


From 0507dcca28b530c06d47ba8f594f7663617c561a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 010/145] fix: portable log2 does not terminate above 2^63

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 6df7721..806c863 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -443,6 +443,10 @@ namespace theoretica {
 		if (x < 1.0)
 			return -log2(1.0 / x);
 
+		// Domain reduction to [1, 2^32]
+		if (x > 4294967296.0)
+			return 32 + log2(x / 4294967296.0);
+
 		// Compute the biggest power of 2 so that x <= 2^i
 		unsigned int i = 0;
 		while(x > (uint64_t(1) << i))
-- 
2.43.0


From 222ea04cabf32940838d3c00cf4c1c4a89628e7d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 011/145] fix: portable tan divides by zero at 3PI/4

---
 src/core/real_analysis.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 806c863..12bf105 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -980,12 +980,6 @@ namespace theoretica {
 		// Domain reduction to [0, PI]
 		x -= floor(x / PI) * PI;
 
-		// Domain reduction to [0, PI / 4]
-		if(x > (PI / 4)) {
-			const real t = tan(x - PI / 4.0);
-			return (1 + t) / (1 - t);
-		}
-
 		const real s = sin(x);
 		const real c = cos(x);
 
-- 
2.43.0


From 35c5284cfc8d92419d52eb30f046b25f4efc7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:15:43 +0000
Subject: [PATCH 012/145] fix: gamma and half_gamma of integers overflow 64
 bits

---
 src/core/special.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 352576e..6963ca5 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -27,7 +27,7 @@ namespace theoretica {
 				return nan();
 			}
 
-			return fact(k - 1);
+			return fact<real>(k - 1);
 		}
 
 
@@ -46,8 +46,8 @@ namespace theoretica {
 			}
 
 			return (k % 2 == 0)
-		        ? fact<uint64_t>(k / 2 - 1)
-		        : double_fact<uint64_t>(k - 2) * SQRTPI / (1 << ((k - 1) / 2));
+		        ? fact<real>(k / 2 - 1)
+		        : double_fact<real>(k - 2) * SQRTPI / pow<real>(2, (k - 1) / 2);
 		}
 
 
-- 
2.43.0


From 4d168f300bdf0038bb70135ad44750b3cdb9da30 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:17:03 +0000
Subject: [PATCH 013/145] fix: root does not converge for large arguments

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 12bf105..0149553 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -860,7 +860,7 @@ namespace theoretica {
 
 			const real y_pow = pow(y, n - 1);
 
-			if((y_pow * y - x) < OPTIMIZATION_TOL)
+			if((y_pow * y - x) < OPTIMIZATION_TOL * x)
 				break;
 
 			y = (y * (n - 1) + x / y_pow) / (real) n;
-- 
2.43.0


From 82721f3a58a28c7127356a936b2755b62af41724 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:17:03 +0000
Subject: [PATCH 014/145] fix: quotient_sum of empty datasets reads out of
 bounds

---
 src/core/dataset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 4d48119..89865b7 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -97,7 +97,7 @@ namespace theoretica {
 	template<typename Vector>
 	inline auto quotient_sum(const Vector& X, const Vector& Y) {
 
-		if(X.size() != Y.size()) {
+		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("quotient_sum", X.size(), INVALID_ARGUMENT);
 			return nan();
 		}
-- 
2.43.0


From 7c50e22c97cac6465a4554cbbfd62478320bf104 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 015/145] fix: fixed-size vec division assignment does not
 compile

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 0f5edb3..09e7092 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -281,7 +281,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				vec_error(*this);
+				algebra::vec_error(*this);
 				return *this;
 			}
 
-- 
2.43.0


From 1c6aab20002555a7066cbcb6eae91cf2ab20bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 016/145] fix: elements of non-square dynamic matrices alias or
 fall outside the storage

---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1cf48af..64f86ae 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1066,9 +1066,9 @@ namespace theoretica {
 		inline Type& at(unsigned int i, unsigned int j) {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
@@ -1082,9 +1082,9 @@ namespace theoretica {
 		inline const Type& at(unsigned int i, unsigned int j) const {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
-- 
2.43.0


From 26aabc220b13892bf9bf3882161ce84a94962898 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 017/145] fix: resizing a dynamic matrix scrambles the elements
 that survive

---
 src/algebra/mat.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 64f86ae..6b0a155 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1241,11 +1241,17 @@ namespace theoretica {
 
 			if (data.size()) {
 
-				size_t min_elements = min(rows, row_sz) * min(cols, col_sz);
+				const unsigned int min_rows = min(rows, row_sz);
+				const unsigned int min_cols = min(cols, col_sz);
 
 				// Copy the overlapping elements
-				for (unsigned int i = 0; i < min_elements; ++i)
-					new_data[i] = data[i];
+				for (unsigned int i = 0; i < min_rows; ++i)
+					for (unsigned int j = 0; j < min_cols; ++j)
+#ifdef THEORETICA_ROW_FIRST
+						new_data[j + i * cols] = at(i, j);
+#else
+						new_data[i + j * rows] = at(i, j);
+#endif
 			}
 
 			data = new_data;
-- 
2.43.0


From 8d8b05399d495b8e16b4223f78073e2ba2590122 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:20:46 +0000
Subject: [PATCH 018/145] fix: fixed-size matrix built from a diagonal value is
 zero

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 6b0a155..a81e5a1 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -212,7 +212,7 @@ namespace theoretica {
 				resize(n, k);
 
 			algebra::mat_zeroes(*this);
-			const unsigned int m = min(n, k);
+			const unsigned int m = min(N, K);
 
 			for (unsigned int i = 0; i < m; ++i)
 				at(i, i) = diagonal;
-- 
2.43.0


From 84127ce9c56ce0f036619906362fb018cacbb267 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:20:46 +0000
Subject: [PATCH 019/145] fix: mat_swap_cols iterates over the columns instead
 of the rows

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 187d0c5..7eb8424 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -211,7 +211,7 @@ namespace theoretica {
 			if (col1 == col2)
 				return A;
 
-			for (unsigned int i = 0; i < A.cols(); ++i) {
+			for (unsigned int i = 0; i < A.rows(); ++i) {
 
 				const Type tmp = A(i, col1);
 
-- 
2.43.0


From 72754b8b1548ba22295041579c71460d897f18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:20:46 +0000
Subject: [PATCH 020/145] fix: apply_transform leaves the vector unchanged

---
 src/algebra/algebra.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7eb8424..b46581c 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -681,14 +681,21 @@ namespace theoretica {
 			}
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
+
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::apply_transform", A.rows(), INVALID_ARGUMENT);
+				vec_error(v);
+				return v;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res[i] += A(i, j) * v[j];
 
-			vec_copy(res, v);
+			vec_copy(v, res);
 			return v;
 		}
 
-- 
2.43.0


From f762c7876c9e2605e415e1ba383b0ea203aa24cb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:20:46 +0000
Subject: [PATCH 021/145] fix: transforming a vector by a non-square matrix
 writes out of bounds

---
 src/algebra/algebra.h | 6 +++---
 src/algebra/mat.h     | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index b46581c..19e55d2 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -709,9 +709,9 @@ namespace theoretica {
 		inline Vector transform(const Matrix& A, const Vector& v) {
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 
-			if(v.size() != A.cols()) {
+			if(v.size() != A.cols() || res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", v.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
@@ -743,7 +743,7 @@ namespace theoretica {
 				return res;
 			}
 
-			if(res.size() != v.size()) {
+			if(res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index a81e5a1..a679725 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -332,7 +332,8 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		/// @return The transformed vector as a new `vec<Type, N>`.
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			return algebra::transform(res, *this, v);
 		}
 
 
@@ -877,7 +878,7 @@ namespace theoretica {
 		template<typename Vector>
 		inline Vector transform(const Vector& v) const {
 
-			if(v.size() != rows()) {
+			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
 				res.resize(rows());
-- 
2.43.0


From 079418bd40f9ab731f5dafce7d9075e550ddba70 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 022/145] fix: product of fixed-size non-square matrices has
 the wrong shape

---
 src/algebra/mat.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index a679725..e02cd1b 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -379,6 +379,16 @@ namespace theoretica {
 		}
 
 
+   		/// Overloads the `*` operator for the multiplication of fixed-size matrices.
+   		/// @tparam M The number of columns in matrix `B`.
+   		/// @param B The matrix to multiply with.
+   		/// @return The resulting matrix.
+		template<unsigned int M>
+		inline mat<Type, N, M> operator*(const mat<Type, K, M>& B) const {
+			return mul(B);
+		}
+
+
    		/// Overloads the `*` operator for matrix multiplication.
    		/// @tparam Matrix The type of the matrix to multiply with.
    		/// @param B The matrix to multiply with.
-- 
2.43.0


From 0635023bb8ef884c7ca4a6a84f6c825bde3dfd2f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 023/145] fix: mat_lincomb with a destination does not compile

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 19e55d2..9ac2c88 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -944,14 +944,14 @@ namespace theoretica {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.rows(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(A.cols() != B.cols()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.cols(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(res.rows() != A.rows()) {
@@ -970,7 +970,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res(i, j) = A(i, j) * alpha + B(i, j) * beta;
 
-			return A;
+			return res;
 		}
 
 
-- 
2.43.0


From 59f067b5cd647b249357f7f285a1473567a14b1e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 024/145] fix: decompose_lu leaves stale elements above the
 diagonal of L

---
 src/algebra/algebra.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 9ac2c88..03ccbd2 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1397,11 +1397,8 @@ namespace theoretica {
 				return;
 			}
 
-			using Type = matrix_element_t<Matrix1>;
-
-			// Set the diagonal of L to 1.0
-			for (unsigned int i = 0; i < A.rows(); ++i)
-				L(i, i) = (Type) 1.0;
+			// Set the diagonal of L to 1.0 and its upper part to zero
+			make_identity(L);
 
 			// Compute L and U
 			for(unsigned int i = 0; i < A.rows(); ++i) {
-- 
2.43.0


From cbb2a040aed24e9521ac30ee9320de26752bb485 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 025/145] fix: LU decomposition of complex matrices conjugates
 U

---
 src/algebra/algebra.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 03ccbd2..03a95bb 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1408,7 +1408,7 @@ namespace theoretica {
 					U(i, j) = A(i, j);
 				
 					for(unsigned int k = 0; k < i; ++k)
-						U(i, j) -= pair_inner_product(L(i, k), U(k, j));
+						U(i, j) -= L(i, k) * U(k, j);
 				}
 
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
@@ -1416,7 +1416,7 @@ namespace theoretica {
 					L(j, i) = A(j, i);
 
 					for(unsigned int k = 0; k < i; ++k)
-						L(j, i) -= pair_inner_product(L(j, k), U(k, i));
+						L(j, i) -= L(j, k) * U(k, i);
 
 					L(j, i) /= U(i, i);
 				}
@@ -1448,7 +1448,7 @@ namespace theoretica {
 					A(i, j) /= A(j, j);
 
 					for(unsigned int k = j + 1; k < A.rows(); ++k)
-						A(i, k) -= pair_inner_product(A(i, j), A(j, k));
+						A(i, k) -= A(i, j) * A(j, k);
 				}
 			}
 		
-- 
2.43.0


From 3d7e064820a7fba2d7b2e0bc0636f7a4222aa80c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 026/145] fix: solve_triangular_upper reads past the last row

---
 src/algebra/algebra.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 03a95bb..7e86bad 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1623,17 +1623,12 @@ namespace theoretica {
 				return vec_error(x);
 			}
 
-			if (U.rows() == 1) {
-				x[0] = b[0] / U(0, 0);
-				return x;
-			}
-
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
 				
-				Type sum = U(i, i + 1) * x[i + 1];
+				Type sum = Type(0.0);
 
-				for (unsigned int j = i + 2; j < U.cols(); ++j)
+				for (unsigned int j = i + 1; j < U.cols(); ++j)
 					sum += U(i, j) * x[j];
 
 				if (abs(U(i, i)) < MACH_EPSILON) {
-- 
2.43.0


From 1a2d61ae32ee02d8d11a593939a7baffe9365615 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 027/145] fix: solve_triangular does not report matrices which
 are not triangular

---
 src/algebra/algebra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7e86bad..5177c9a 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1659,6 +1659,7 @@ namespace theoretica {
 			else if(is_upper_triangular(T))
 				return solve_triangular_upper(T, b);
 			else {
+				TH_MATH_ERROR("algebra::solve_triangular", b.size(), INVALID_ARGUMENT);
 				Vector err;
 				err.resize(b.size());
 				return vec_error(err);
-- 
2.43.0


From c64afa97b458cfd00622e3ecf2d51285ca48ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 028/145] fix: solving a linear system with a zero pivot gives
 NaN without an error

---
 src/algebra/algebra.h | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 5177c9a..cb77480 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1728,8 +1728,40 @@ namespace theoretica {
 		template<typename Matrix, typename Vector>
 		inline Vector solve_lu(Matrix A, Vector b) {
 
-			// Apply in-place LU decomposition
-			decompose_lu_inplace(A);
+			if (!is_square(A) || A.rows() != b.size()) {
+				TH_MATH_ERROR("algebra::solve_lu", A.rows(), INVALID_ARGUMENT);
+				return vec_error(b);
+			}
+
+			// Apply in-place LU decomposition with partial pivoting,
+			// swapping the elements of the known vector accordingly
+			for (unsigned int j = 0; j < A.cols(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i)
+					if (abs(A(i, j)) > abs(A(pivot, j)))
+						pivot = i;
+
+				if (abs(A(pivot, j)) == 0) {
+					TH_MATH_ERROR("algebra::solve_lu", pivot, DIV_BY_ZERO);
+					return vec_error(b);
+				}
+
+				mat_swap_rows(A, j, pivot);
+
+				const auto tmp = b[j];
+				b[j] = b[pivot];
+				b[pivot] = tmp;
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i) {
+
+					A(i, j) /= A(j, j);
+
+					for (unsigned int k = j + 1; k < A.rows(); ++k)
+						A(i, k) -= A(i, j) * A(j, k);
+				}
+			}
 
 			// Apply forward and backward substitution
 			return solve_lu_inplace(A, b);
-- 
2.43.0


From 48757be858a2eaac416964aa0550c131fe1f4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 029/145] fix: det is NaN when a leading minor is zero

---
 src/algebra/algebra.h | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index cb77480..62adc38 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2056,10 +2056,44 @@ namespace theoretica {
 		inline auto det(const Matrix& A) {
 
 			Matrix LU = A;
-			decompose_lu_inplace(LU);
+			matrix_element_t<Matrix> sign = 1.0;
+
+			if (!is_square(A)) {
+				TH_MATH_ERROR("algebra::det", A.rows(), INVALID_ARGUMENT);
+				mat_error(LU);
+				return diagonal_product(LU);
+			}
+
+			// Reduce the matrix to triangular form with partial pivoting
+			for (unsigned int j = 0; j < LU.cols(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < LU.rows(); ++i)
+					if (abs(LU(i, j)) > abs(LU(pivot, j)))
+						pivot = i;
+
+				// The whole column is zero and so is the determinant
+				if (abs(LU(pivot, j)) == 0)
+					return diagonal_product(mat_zeroes(LU));
+
+				if (pivot != j) {
+					mat_swap_rows(LU, j, pivot);
+					sign *= -1.0;
+				}
+
+				for (unsigned int i = j + 1; i < LU.rows(); ++i) {
+
+					const auto coeff = LU(i, j) / LU(j, j);
+
+					for (unsigned int k = j; k < LU.cols(); ++k)
+						LU(i, k) -= coeff * LU(j, k);
+				}
+			}
 
 			// The determinant of a triangular matrix
 			// is the product of the elements on its diagonal
+			LU(0, 0) *= sign;
 			return diagonal_product(LU);
 		}
 
-- 
2.43.0


From a15d3a15c1fd95c9db5c6bd4fc61d9c6ede3adfd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:35:11 +0000
Subject: [PATCH 030/145] fix: inverse without partial pivoting loses all
 digits of well-conditioned matrices

---
 src/algebra/algebra.h | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 62adc38..1af6565 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1944,36 +1944,23 @@ namespace theoretica {
 			// Iterate on all columns
 			for (unsigned int i = 0; i < src.rows(); ++i) {
 				
-				// Make sure the element on the diagonal
-				// is non-zero by adding the first non-zero row
-				if(A(i, i) == (Type) 0) {
-
-					bool flag = false;
-
-					// Iterate on all rows
-					for (unsigned int j = i + 1; j < src.rows(); ++j) {
-
-						// Add the j-th row to the i-th row
-						// if Aji is non-zero
-						if(A(j, i) != (Type) 0) {
-
-							for (unsigned int k = 0; k < src.rows(); ++k) {
-								A(i, k) += A(j, k);
-								dest(i, k) += dest(j, k);
-							}
-
-							flag = true;
-							break;
-						}
-					}
-
-					if(!flag) {
-						TH_MATH_ERROR("algebra::inverse", flag, IMPOSSIBLE_OPERATION);
-						mat_error(dest);
-						return dest;
-					}
+				// Use the element of greatest absolute value
+				// in the column as pivot (partial pivoting)
+				unsigned int pivot = i;
+
+				for (unsigned int j = i + 1; j < src.rows(); ++j)
+					if(abs(A(j, i)) > abs(A(pivot, i)))
+						pivot = j;
+
+				if(A(pivot, i) == (Type) 0) {
+					TH_MATH_ERROR("algebra::inverse", pivot, IMPOSSIBLE_OPERATION);
+					mat_error(dest);
+					return dest;
 				}
 
+				mat_swap_rows(A, i, pivot);
+				mat_swap_rows(dest, i, pivot);
+
 				auto inv_pivot = ((Type) 1.0) / A(i, i);
 
 				// Use the current row to make all other
-- 
2.43.0


From 1713618ee7406986f63ba189d58a06039263f788 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 031/145] fix: complex division by a real in place does not
 compile

---
 src/complex/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index 0c26a7f..c3ba180 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -306,7 +306,7 @@ namespace theoretica {
 
 				if(abs(k) < MACH_EPSILON) {
 					TH_MATH_ERROR("complex::operator/=", k, DIV_BY_ZERO);
-					return complex(nan(), nan());
+					return (*this = complex(nan(), nan()));
 				}
 
 				return (*this = complex(a / k, b / k));
-- 
2.43.0


From 8010675d01c25d21d62db8ef594f696de3554c51 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 032/145] fix: complex square root of negative real numbers is
 zero

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 590f6b7..91c7af9 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -113,7 +113,7 @@ namespace theoretica {
 
 		return complex<T>(
 			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re()))  * sgn(z.b));
+			INVSQR2 * sqrt((z.norm() - z.Re())) * (z.b < 0 ? -1 : 1));
 	}
 
 
-- 
2.43.0


From 50d42716ade40ce6cf18015d9a8c3a182f091f20 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 033/145] fix: quaternion in-place inversion does not compile

---
 src/complex/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 7594254..1453990 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -155,7 +155,7 @@ namespace theoretica {
 
 				if(n < MACH_EPSILON) {
 					TH_MATH_ERROR("quat::invert", n, DIV_BY_ZERO);
-					return quat((Type) nan());
+					return (*this = quat((Type) nan()));
 				}
 
 				return (*this = quat(
-- 
2.43.0


From 7d68b7c2ffd1a85b085b5dc345fbc15e33cc85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 034/145] fix: rotation quaternion uses a constructor which
 does not exist

---
 src/complex/quat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 1453990..b2de525 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -323,9 +323,12 @@ namespace theoretica {
 			/// of <rad> radians around the <axis> arbitrary axis
 			template<typename Vector>
 			inline static quat rotation(Type rad, const Vector& axis) {
+				const Vector n_axis = algebra::normalize(axis);
+				const Type s = sin(rad / 2.0);
+
 				return quat(
 					cos(rad / 2.0),
-					algebra::normalize(axis) * sin(rad / 2.0)
+					n_axis.get(0) * s, n_axis.get(1) * s, n_axis.get(2) * s
 				);
 			}
 
-- 
2.43.0


From 3126eb299b4ec5c644d3e59f85f28e37b85d99c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 035/145] fix: phasor inverse returns a real number instead of
 a phasor

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 9c1b57d..f4f4406 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -126,11 +126,11 @@ namespace theoretica {
 
 
 			/// Compute the inverse of the complex number
-			inline Type inverse() const {
+			inline phasor inverse() const {
 
 				if(modulus < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::inverse", modulus, DIV_BY_ZERO);
-					return (Type) nan();
+					return phasor(nan(), nan());
 				}
 
 				return phasor(
-- 
2.43.0


From fea229b1925c8744cf6fe9e4b57ce34b8d9888c0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 036/145] fix: phasor subtraction yields a negative modulus

---
 src/complex/phasor.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index f4f4406..c49e863 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -181,7 +181,8 @@ namespace theoretica {
 			/// in algebraic form.
 			inline phasor operator-(const phasor& other) const {
 
-				if(abs(phase - other.phase) < MACH_EPSILON)
+				// The modulus cannot be negative
+				if(abs(phase - other.phase) < MACH_EPSILON && modulus >= other.modulus)
 					return phasor(modulus - other.modulus, phase);
 
 				return phasor(to_complex() - other.to_complex());
@@ -248,7 +249,8 @@ namespace theoretica {
 			/// Subtract a phasor from this one
 			inline phasor& operator-=(const phasor& other) {
 
-				if(phase == other.phase)
+				// The modulus cannot be negative
+				if(phase == other.phase && modulus >= other.modulus)
 					modulus -= other.modulus;
 				else
 					*this = phasor(to_complex() - other.to_complex());
-- 
2.43.0


From eab71329746cd5839998f356997786980185eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:32 +0000
Subject: [PATCH 037/145] fix: compound products and quotients of dual numbers
 use the updated real part

---
 src/autodiff/dual.h      | 4 ++--
 src/autodiff/dual2.h     | 4 ++--
 src/autodiff/multidual.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index d6f337d..c10aae7 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -215,8 +215,8 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual& operator*=(const dual& other) {
 
-				a = (a * other.a);
 				b = (a * other.b) + (b * other.a);
+				a = (a * other.a);
 				return *this;
 			}
 
@@ -231,8 +231,8 @@ namespace theoretica {
 			/// Divide this dual number by another one
 			inline dual& operator/=(const dual& other) {
 
-				a = (a / other.a);
 				b = (b * other.a - a * other.b) / square(other.a);
+				a = (a / other.a);
 				return *this;
 			}
 
diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 21ebe43..e313d5d 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -207,9 +207,9 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual2& operator*=(const dual2& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
 				c = (a * other.c) + (2 * b * other.b) + (c * other.a);
+				b = (a * other.b) + (b * other.a);
+				a = (a * other.a);
 				return *this;
 			}
 
diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index f185adf..0f15c9a 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -205,8 +205,8 @@ namespace theoretica {
 			/// Multiply this multidual number by another one
 			inline multidual& operator*=(const multidual& other) {
 
-				a = (a * other.a);
 				v = (other.v * a) + (v * other.a);
+				a = (a * other.a);
 				return *this;
 			}
 
@@ -221,8 +221,8 @@ namespace theoretica {
 			/// Divide this multidual number by another one
 			inline multidual& operator/=(const multidual& other) {
 
-				a = (a / other.a);
 				v = (v * other.a - other.v * a) / (other.a * other.a);
+				a = (a / other.a);
 				return *this;
 			}
 
-- 
2.43.0


From da4d88fff5f42ab08d86bd6d6e876579d02d52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:32 +0000
Subject: [PATCH 038/145] fix: second order part of the inverse of a dual2
 number

---
 src/autodiff/dual2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index e313d5d..78060a4 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -109,7 +109,7 @@ namespace theoretica {
 					return dual2(nan(), nan(), nan());
 				}
 
-				return dual2(1.0 / a, -b / square(a), 2 * b / cube(a));
+				return dual2(1.0 / a, -b / square(a), 2 * square(b) / cube(a) - c / square(a));
 			}
 
 			/// Identity (for consistency)
-- 
2.43.0


From 98a3c2ab58bef0e98f26f092111ebb319a6b8691 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 039/145] fix: second derivative of the integer power of dual2
 numbers

---
 src/autodiff/dual2_functions.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 00211a5..a98c794 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -40,13 +40,19 @@ namespace theoretica {
 	/// Compute the n-th power of a second order dual number
 	inline dual2 pow(dual2 x, int n) {
 
+		if(n == 0)
+			return dual2(1.0);
+
+		if(n == 1)
+			return x;
+
 		const real pow_n_2_x = pow(x.Re(), n - 2);
 
 		real f = pow_n_2_x * square(x.Re());
-		real df = pow_n_2_x * x.Re() * n * x.Dual1();
+		real df = pow_n_2_x * x.Re() * n;
 		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + df * x.Dual2();
 
-		return dual2(f, df, d2f);
+		return dual2(f, df * x.Dual1(), d2f);
 	}
 
 
-- 
2.43.0


From a5a1e7e7c4b486063213ad99d0c84fa4bf3a08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 040/145] fix: zeroth power of a dual number with null real
 part is NaN

---
 src/autodiff/dual_functions.h      | 3 +++
 src/autodiff/multidual_functions.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index c247a5e..60e2ef3 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -45,6 +45,9 @@ namespace theoretica {
 	/// Compute the n-th power of a dual number
 	inline dual pow(dual x, int n) {
 
+		if(n == 0)
+			return dual(1.0);
+
 		const real pow_n_1_x = pow(x.Re(), n - 1);
 		return dual(pow_n_1_x * x.Re(), pow_n_1_x * n * x.Dual());
 	}
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d9cb67a..eda4c00 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -38,6 +38,9 @@ namespace theoretica {
 	/// Compute the n-th power of a multidual number
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
+		if(n == 0)
+			return multidual<N>(1.0, x.Dual() * 0.0);
+
 		real pow_n_1_x = pow(x.Re(), n - 1);
 		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
 	}
-- 
2.43.0


From 5fc670e3c6fe07f2e3841ce9265fafc6e6bb4111 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 041/145] fix: derivative of the hyperbolic tangent misses a
 factor of four

---
 src/autodiff/dual_functions.h      | 2 +-
 src/autodiff/multidual_functions.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 60e2ef3..4703086 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -221,7 +221,7 @@ namespace theoretica {
 		const real exp_x = exp(x.Re());
 		return dual(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x)
+			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index eda4c00..e1e04ec 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -216,7 +216,7 @@ namespace theoretica {
 		real exp_x = exp(x.Re());
 		return multidual<N>(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x));
+			x.Dual() * (4.0 / square(exp_x + 1.0 / exp_x)));
 	}
 
 }
-- 
2.43.0


From b6a276718ed50cb1b14fb26e41a08b500b42b34a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 042/145] fix: absolute value of a dual2 number drops the
 second order part

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index a98c794..c394ce7 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -202,7 +202,7 @@ namespace theoretica {
 
 	/// Compute the absolute value of a second order dual number
 	inline dual2 abs(dual2 x) {
-		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), 0);
+		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), x.Dual2() * sgn(x.Re()));
 	}
 
 
-- 
2.43.0


From 0bb7fd6319561fea20aabd769f393215d486c633 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 043/145] fix: sign of the second derivative of the arctangent

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index c394ce7..2e99a40 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -250,7 +250,7 @@ namespace theoretica {
 		return dual2(
 			atan(x.Re()),
 			x.Dual1() / (1 + square(x.Re())),
-			square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
+			-square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
 				+ x.Dual2() / (1 + square(x.Re()))
 		);
 	}
-- 
2.43.0


From 40c826941c2b3de247e76f213a52c02101e3f549 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 044/145] fix: dual2 functions return a null second order part
 on error

---
 src/autodiff/dual2_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 2e99a40..e916c76 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -63,7 +63,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(dual2)", sqrt_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -110,7 +110,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(dual2)", cos_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -129,7 +129,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(dual2)", sin_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -158,7 +158,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(ln(x.Re()),
@@ -173,7 +173,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -189,7 +189,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -211,7 +211,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
@@ -230,7 +230,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
-- 
2.43.0


From cf8cd043db91205442bd4155a9a4108e74c80e54 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 045/145] fix: arcsine and arccosine of dual numbers accept -1
 and give an infinite derivative

---
 src/autodiff/dual2_functions.h     | 4 ++--
 src/autodiff/dual_functions.h      | 4 ++--
 src/autodiff/multidual_functions.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index e916c76..9b4f9fb 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -209,7 +209,7 @@ namespace theoretica {
 	/// Compute the arcsine of a second order dual number
 	inline dual2 asin(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan(), nan());
 		}
@@ -228,7 +228,7 @@ namespace theoretica {
 	/// Compute the arcosine of a second order dual number
 	inline dual2 acos(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan(), nan());
 		}
diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 4703086..fa99eb0 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -160,7 +160,7 @@ namespace theoretica {
 	/// Compute the arcsine of a dual number
 	inline dual asin(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
@@ -172,7 +172,7 @@ namespace theoretica {
 	/// Compute the arccosine of a dual number
 	inline dual acos(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index e1e04ec..4edc59c 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -163,7 +163,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> asin(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(nan()));
 		}
@@ -176,7 +176,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> acos(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(nan()));
 		}
-- 
2.43.0


From 28ee5cc392fe4cbdee37c440df01329c5438baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 046/145] fix: multidual errors build vectors of invalid size
 and 0/x is refused

---
 src/autodiff/multidual.h           |  8 ++++----
 src/autodiff/multidual_functions.h | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 0f15c9a..fd2e091 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -98,7 +98,7 @@ namespace theoretica {
 
 				if(a == 0) {
 					TH_MATH_ERROR("multidual::inverse", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(N, nan()));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(1.0 / a, v * (-1 / (a * a)));
@@ -156,9 +156,9 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
-				if(a == 0) {
+				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(nan(), N));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(a / other.a,
@@ -232,7 +232,7 @@ namespace theoretica {
 				if(r == 0) {
 					TH_MATH_ERROR("multidual::operator/=", 0, DIV_BY_ZERO);
 					a = nan();
-					v = vec<real, N>(nan(), N);
+					v = vec<real, N>(v.size(), nan());
 					return *this;
 				}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 4edc59c..e2e9e01 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -54,7 +54,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(multidual)", sqrt_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(sqrt_x, x.Dual() * 0.5 / sqrt_x);
@@ -83,7 +83,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(multidual)", cos_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(tan(x.Re()), x.Dual() / square(cos_x));
@@ -98,7 +98,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(multidual)", sin_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(cot(x.Re()), x.Dual() * (-1 / square(sin_x)));
@@ -119,7 +119,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(ln(x.Re()), x.Dual() / x.Re());
@@ -132,7 +132,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(log2(x.Re()), x.Dual() * LOG2E / x.Re());
@@ -145,7 +145,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(log10(x.Re()), x.Dual() * LOG10E / x.Re());
@@ -165,7 +165,7 @@ namespace theoretica {
 
 		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(asin(x.Re()), x.Dual() / sqrt(1 - square(x.Re())));
@@ -178,7 +178,7 @@ namespace theoretica {
 
 		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(acos(x.Re()), x.Dual() * (-1 / sqrt(1 - square(x.Re()))));
-- 
2.43.0


From 690d738657193b53645c9358343fec097e9102b0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 047/145] fix: extraction from dynamic multidual vectors does
 nothing

---
 src/autodiff/multidual.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index fd2e091..8661ab5 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -276,7 +276,7 @@ namespace theoretica {
 				vec<real, N> x;
 				x.resize(v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int i = 0; i < v.size(); ++i)
 					x[i] = v.get(i).Re();
 
 				return x;
@@ -292,8 +292,8 @@ namespace theoretica {
 				mat<real, N, N> J;
 				J.resize(v.size(), v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
-					for (unsigned int j = 0; j < N; ++j)
+				for (unsigned int i = 0; i < v.size(); ++i)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 				
 				return J;
@@ -308,9 +308,12 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
-				for (unsigned int i = 0; i < N; ++i) {
+				x.resize(v.size());
+				J.resize(v.size(), v.size());
+
+				for (unsigned int i = 0; i < v.size(); ++i) {
 					
-					for (unsigned int j = 0; j < N; ++j)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 					
 					x[i] = v.get(i).Re();
-- 
2.43.0


From c9020fdd186af381ea620575fd97ed52e5302e04 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 048/145] fix: curl builds the error vector with swapped
 arguments

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 88d1a7b..f243d1a 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -288,7 +288,7 @@ namespace theoretica {
 
 			if(x.size() != 3) {
 				TH_MATH_ERROR("th::curl", x.size(), INVALID_ARGUMENT);
-				return vec<real, N>(nan(), x.size());
+				return vec<real, N>(x.size(), nan());
 			}
 
 			mat<real, N, N> J = jacobian<N, N>(f, x);
-- 
2.43.0


From e5b6f1b870b3e99052c82ccbd333fd8c0135a23f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 049/145] fix: directional derivative and Sturm-Liouville
 operator do not compile

---
 src/autodiff/autodiff.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index f243d1a..4bc264a 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -11,6 +11,7 @@
 #include "multidual.h"
 #include "../algebra/vec.h"
 #include "../algebra/mat.h"
+#include "../algebra/transform.h"
 #include "../core/error.h"
 #include "../core/core_traits.h"
 #include "./autodiff_types.h"
@@ -341,7 +342,7 @@ namespace theoretica {
 		inline vec<real, N> directional_derivative(multidual<N>(*f)(vec<multidual<N>, N>),
 			const vec<real, N>& x, const vec<real, N>& v) {
 
-			return v * dot(v, gradient(f, x));
+			return v * algebra::dot(v, gradient(f, x));
 		}
 
 
@@ -436,9 +437,11 @@ namespace theoretica {
 			multidual<N>(*H)(vec<multidual<N>, N>),
 			vec<real, N> eta) {
 
-			return gradient(f, eta)
-				 * mat<real, N, N>::symplectic(eta.size(), eta.size())
-				 * gradient(H, eta);
+			return algebra::dot(
+				gradient(f, eta),
+				algebra::symplectic<mat<real, N, N>>(eta.size(), eta.size())
+					* gradient(H, eta)
+			);
 		}
 
 	}
-- 
2.43.0


From d3bd39bae482b053fe0e96a1dc529cf59924daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:51:24 +0000
Subject: [PATCH 050/145] fix: integer power of multidual numbers does not
 compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index e2e9e01..208dfd6 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -42,7 +42,7 @@ namespace theoretica {
 			return multidual<N>(1.0, x.Dual() * 0.0);
 
 		real pow_n_1_x = pow(x.Re(), n - 1);
-		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
+		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * (pow_n_1_x * n));
 	}
 
 
-- 
2.43.0


From 9f4179bb3b5b51aee04ff663b867fa99b127c382 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:51:37 +0000
Subject: [PATCH 051/145] fix: absolute value of multidual numbers does not
 compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 208dfd6..0b1f457 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -155,7 +155,7 @@ namespace theoretica {
 	/// Compute the absolute value of a multidual number
 	template<unsigned int N>
 	multidual<N> abs(multidual<N> x) {
-		return multidual<N>(abs(x.Re()), x.Dual() * sgn(x.Re()));
+		return multidual<N>(abs(x.Re()), x.Dual() * (real) sgn(x.Re()));
 	}
 
 
-- 
2.43.0


From c0ae31610e42dd040e9a032742bb4a6561ca749d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:52:54 +0000
Subject: [PATCH 052/145] fix: sign of the second derivative of the cotangent

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 9b4f9fb..470c904 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -135,7 +135,7 @@ namespace theoretica {
 		return dual2(
 			cot(x.Re()),
 			-x.Dual1() / square(sin_x),
-			-2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
+			2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
 		);
 	}
 
-- 
2.43.0


From 08e76f6b24848ff24fa3f65f8e7b30a53b7ca98b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 053/145] fix: polynomial::find_order returns the highest null
 coefficient

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1582771..45a76e1 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -95,7 +95,7 @@ namespace theoretica {
 			inline unsigned int find_order() const {
 
 				for (int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) < MACH_EPSILON)
+					if(abs(coeff[i]) >= MACH_EPSILON)
 						return i;
 				}
 
-- 
2.43.0


From fc01cddc896dfed84b6510cba4004ff8f14ebf8b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 054/145] fix: polynomial::trim reads out of bounds when all
 coefficients are null

---
 src/polynomial/polynomial.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 45a76e1..bbba014 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,12 +106,8 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				for (unsigned int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) > MACH_EPSILON)
-						break;
-
+				while (coeff.size() && abs(coeff.back()) < MACH_EPSILON)
 					coeff.pop_back();
-				}
 			}
 
 
-- 
2.43.0


From 14dd12b5f6ca7f63304bc22d3412c4fe054f1d10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 055/145] fix: polynomial subtraction reads out of bounds when
 the minuend is shorter

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index bbba014..df5f6ff 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -147,7 +147,7 @@ namespace theoretica {
 
 				unsigned int i = 0;
 
-				for (; i < min(r.size(), p.size()); ++i)
+				for (; i < min(coeff.size(), p.size()); ++i)
 					r[i] = coeff[i] - p.get(i);
 
 				if (coeff.size() > p.size())
-- 
2.43.0


From 8b7f0e6f369acdcbe29ec1045479dc0e9e5e713f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 056/145] fix: product with an empty polynomial underflows its
 size

---
 src/polynomial/polynomial.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index df5f6ff..5ec5463 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -165,6 +165,10 @@ namespace theoretica {
 			inline polynomial operator*(const polynomial& p) const {
 
 				polynomial r = polynomial();
+
+				if(!size() || !p.size())
+					return r;
+
 				r.coeff.resize(this->size() + p.size() - 1);
 
 				for (unsigned int i = 0; i < size(); ++i) {
@@ -289,7 +293,9 @@ namespace theoretica {
 			inline polynomial& operator*=(const polynomial& p) {
 
 				polynomial r = polynomial();
-				r.coeff.resize(this->size() + p.size() - 1, Type(0));
+
+				if(size() && p.size())
+					r.coeff.resize(this->size() + p.size() - 1, Type(0));
 
 				for (unsigned int i = 0; i < coeff.size(); ++i)
 					for (unsigned int j = 0; j < p.size(); ++j)
-- 
2.43.0


From bd6282af25ae4b8b417b59749dbc71d588c24517 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 057/145] fix: polynomial division refuses exact quotients and
 reads empty operands

---
 src/polynomial/polynomial.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 5ec5463..8457e0c 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -187,11 +187,14 @@ namespace theoretica {
 				const unsigned int d_order = d.find_order();
 				const unsigned int this_order = find_order();
 
-				if(d_order == 0 && d.get(0) == 0) {
-					TH_MATH_ERROR("polynomial::operator/", d.get(0), DIV_BY_ZERO);
+				if(!d.size() || abs(d.get(d_order)) < MACH_EPSILON) {
+					TH_MATH_ERROR("polynomial::operator/", d_order, DIV_BY_ZERO);
 					return polynomial(nan());
 				}
 
+				if(!size())
+					return polynomial();
+
 				// Remainder
 				polynomial r = *this;
 
@@ -199,7 +202,7 @@ namespace theoretica {
 				polynomial q = polynomial();
 				unsigned int i = 0;
 
-				while(i < this_order) {
+				while(i <= this_order) {
 
 					// Compute only once the degree of the polynomial
 					const unsigned int r_order = r.find_order();
@@ -219,14 +222,10 @@ namespace theoretica {
 					q += t;
 					r -= t * d;
 
-					i++;
-				}
+					// The leading term cancels exactly
+					r[r_order] = Type(0);
 
-				// The algorithm has stopped iterating after a number
-				// of the dividend's degree counts
-				if(i == this_order) {
-					TH_MATH_ERROR("polynomial::operator/", i, NO_ALGO_CONVERGENCE);
-					return polynomial(nan());
+					i++;
 				}
 
 				return q;
-- 
2.43.0


From eff9a3ba5f73c543d88dcef1aa953eb3c737c108 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 058/145] fix: dividing a polynomial by a null scalar does not
 give NaN

---
 src/polynomial/polynomial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 8457e0c..8523ce4 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -249,6 +249,7 @@ namespace theoretica {
 
 				if(abs(a) < MACH_EPSILON) {
 					TH_MATH_ERROR("polynomial::operator/", a, DIV_BY_ZERO);
+					return polynomial(nan());
 				}
 
 				polynomial r = polynomial(*this);
@@ -326,7 +327,7 @@ namespace theoretica {
 
 				if(abs(a) < MACH_EPSILON) {
 					TH_MATH_ERROR("polynomial::operator/=", a, DIV_BY_ZERO);
-					return *this;
+					return (*this = polynomial(nan()));
 				}
 
 				for (unsigned int i = 0; i < coeff.size(); ++i)
-- 
2.43.0


From 87e715e5cf34f6c1d12910bb667f868984120f4e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 059/145] fix: polynomial equality fails between different
 polynomials sizes and equal ones

---
 src/polynomial/polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 8523ce4..02fe3c3 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -347,12 +347,12 @@ namespace theoretica {
 				}
 
 				if(size() > other.size()) {
-					for (unsigned int i = 0; i < size(); ++i) {
+					for (unsigned int i = n; i < size(); ++i) {
 						if(abs(coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
 				} else {
-					for (unsigned int i = 0; i < other.size(); ++i) {
+					for (unsigned int i = n; i < other.size(); ++i) {
 						if(abs(other.coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
-- 
2.43.0


From cbc5d431b1a02bb85ab93f996926c5772146a12e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 060/145] fix: Lagrange interpolation accepts repeated
 abscissas which are not adjacent

---
 src/interpolation/polynomial.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index e358fc2..0cf6102 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -30,10 +30,12 @@ namespace theoretica {
 
 		// Check that all x_i are different to prevent
 		// division by zero
-		for (unsigned int i = 0; i < points.size() - 1; ++i) {
-			if(points[i].get(0) == points[i + 1].get(0)) {
-				TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
-				return polynomial<T>({T(nan())});
+		for (unsigned int i = 0; i < points.size(); ++i) {
+			for (unsigned int j = i + 1; j < points.size(); ++j) {
+				if(points[i].get(0) == points[j].get(0)) {
+					TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
+					return polynomial<T>({T(nan())});
+				}
 			}
 		}
 
-- 
2.43.0


From 57c035150b3520f22c42fa029fd8704bdae6b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:55:57 +0000
Subject: [PATCH 061/145] fix: interpolation on a grid of order zero divides by
 zero

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index 0cf6102..84248b8 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -100,7 +100,7 @@ namespace theoretica {
 
 		// Sample <order + 1> equidistant points
 		for (unsigned int i = 0; i < order + 1; ++i) {
-			real x = (b - a) / real(order) * real(i) + a;
+			real x = order ? (b - a) / real(order) * real(i) + a : (a + b) / 2.0;
 			points[i] = {x, f(x)};
 		}
 
-- 
2.43.0


From 8546727749fbd4beafd36b47fd2daabbf28501f5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 062/145] fix: generic Bezier curve writes to a const argument
 and does not compile

---
 src/interpolation/splines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index cc91e90..e0ee932 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -187,7 +187,7 @@ namespace theoretica {
 	/// \see quadratic_bezier
 	/// \see cubic_bezier
 	template<unsigned int N>
-	inline vec<real, N> bezier(const std::vector<vec<real, N>>& points, real t) {
+	inline vec<real, N> bezier(std::vector<vec<real, N>> points, real t) {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 21f518ca525ed9d0e9ba43218525aa0819c83300 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 063/145] fix: cubic splines write past the end of the
 coefficients

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index e0ee932..e0e24fb 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -271,7 +271,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
@@ -345,7 +345,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
-- 
2.43.0


From d9530240b3fe87cbe8b0a68fb5314d8ddf8894b4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 064/145] fix: cubic splines on unequally spaced nodes use the
 wrong interval

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index e0e24fb..48a8d1b 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -285,7 +285,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (p[i + 1][0] - p[i - 1][0]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
@@ -359,7 +359,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (x[i + 1] - x[i - 1]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
-- 
2.43.0


From 921b857da51a4d68d33fa7ce863f9d775f417ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 065/145] fix: Simpson's method is wrong for an odd number of
 steps

---
 src/calculus/integral.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index a74fd4c..d893ab3 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -130,6 +130,10 @@ namespace theoretica {
 			TH_MATH_ERROR("integral_simpson", steps, DIV_BY_ZERO);
 			return nan();
 		}
+
+		// An even number of intervals is needed
+		if(steps % 2)
+			steps++;
 		
 		const real dx = (b - a) / (real) steps;
 		real res = 0;
-- 
2.43.0


From 4de3f6675011d50e88422449dade50dc9c1b4212 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 066/145] fix: Romberg's method with no iterations reads out of
 bounds

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index d893ab3..1f18683 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -168,6 +168,11 @@ namespace theoretica {
 		real a, real b,
 		unsigned int iter = 8) {
 
+		if(iter == 0) {
+			TH_MATH_ERROR("integral_romberg", iter, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real T[iter][iter];
 
 		T[0][0] = (f(a) + f(b)) * (b - a) / 2.0;
-- 
2.43.0


From 946fe645f66dc4086084437f0da845775c6b60de Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 067/145] fix: Romberg integration stops on chance agreement of
 the first two estimates

---
 src/calculus/integral.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 1f18683..cba3a01 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -224,8 +224,9 @@ namespace theoretica {
 				T[j][k] = (coeff * T[j][k - 1] - T[j - 1][k - 1]) / (coeff - 1);
 			}
 
-			// Stop the algorithm when the desired precision has been reached
-			if(abs(T[j][j] - T[j - 1][j - 1]) < tolerance)
+			// Stop the algorithm when the desired precision has been reached,
+			// with enough samples to avoid chance agreement of the first estimates
+			if(j > 3 && abs(T[j][j] - T[j - 1][j - 1]) < tolerance)
 				return T[j][j];
 		}
 
-- 
2.43.0


From a9186416aaeebd81e51ae74c9694f2e296e78f25 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 068/145] fix: Gauss-Legendre quadrature reads out of bounds
 with fewer weights than roots

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index cba3a01..c8ec64d 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -337,6 +337,11 @@ namespace theoretica {
 		RealFunction f, real a, real b,
 		const std::vector<real>& x, const std::vector<real>& w) {
 
+		if(x.size() != w.size()) {
+			TH_MATH_ERROR("integral_legendre", x.size(), INVALID_ARGUMENT);
+			return nan();
+		}
+
 		const real mean = (b + a) / 2.0;
 		const real halfdiff = (b - a) / 2.0;
 
-- 
2.43.0


From 02151eacb3aaa08e500576033b23e461852720a3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 069/145] fix: Kutta's 3/8 rule uses the wrong stage

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 5b599b2..6816966 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -238,7 +238,7 @@ namespace theoretica {
 			const Vector k1 = f(t, x);
 			const Vector k2 = f(t + (h / 3.0), x + k1 * (h / 3.0));
 			const Vector k3 = f(t + (h * 2.0 / 3.0), x + h * (-k1 / 3.0 + k2));
-			const Vector k4 = f(t + h, x + h * (k1 - k2 + k1));
+			const Vector k4 = f(t + h, x + h * (k1 - k2 + k3));
 
 			return x + (k1 + 3.0 * k2 + 3.0 * k3 + k4) * (h / 8.0);
 		}
-- 
2.43.0


From c9bd41c9e738f007e4b7db890ccd4e1a7185706e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 070/145] fix: third order Adams-Bashforth coefficient is wrong

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 6816966..3c07f9d 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -279,7 +279,7 @@ namespace theoretica {
 			const Vector& x2, real t2, real h = 0.001) {
 
 			return x2 + h *	(
-				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (3. / 8.) * f(t0, x0)
+				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (5. / 12.) * f(t0, x0)
 			);
 		}
 
-- 
2.43.0


From 654fe3854415fdeb315a902eb0c5494c64a19a52 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 071/145] fix: invalid ODE intervals and step sizes are not
 reported consistently

---
 src/calculus/ode.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 3c07f9d..5e465b6 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -313,9 +313,9 @@ namespace theoretica {
 			OdeFunction f, const Vector& x0, real t0, real tf,
 			StepFunction step, real stepsize = 0.001) {
 
-			if (tf < t0) {
-				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
-				ode_solution_t<Vector> err; err.t = Vector(nan());
+			if (tf < t0 || stepsize <= 0) {
+				TH_MATH_ERROR("ode::solve_fixstep", tf < t0 ? tf : stepsize, INVALID_ARGUMENT);
+				ode_solution_t<Vector> err; err.t = vec<real>({nan()});
 				return err;
 			}
 
-- 
2.43.0


From 9f45dd5371d7d36c6005cddf92d4303cc45273fd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 072/145] fix: Hermite normalization and weights overflow from
 degree 17

---
 src/polynomial/orthogonal.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index dbcc2f4..9f15feb 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -205,7 +205,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt((1 << n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(pow(2.0, n) * fact<real>(n) * SQRTPI);
 	}
 
 
@@ -316,6 +316,10 @@ namespace theoretica {
 	inline std::vector<real> hermite_weights(const std::vector<real>& roots) {
 
 		const unsigned int n = roots.size();
+
+		if(n == 0)
+			return {};
+
 		const polynomial<real> H = hermite_polynomial(n - 1);
 
 		std::vector<real> weights;
@@ -323,7 +327,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				((1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(pow(2.0, n - 1) * fact<real>(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0


From 7157e73b63494beb106d1e4ca093d8691c008bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 22:57:54 +0000
Subject: [PATCH 073/145] fix: Legendre roots are repeated or missing from
 degree 6

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 9f15feb..8bc9a91 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -260,7 +260,7 @@ namespace theoretica {
 
 		for (unsigned int i = 1; i <= n; ++i) {
 			roots.push_back(
-				root_newton(P, deriv(P), (2.0 / (n + 1)) * i - 1.0)
+				root_newton(P, deriv(P), -cos(PI * (i - 0.25) / (n + 0.5)))
 			);
 		}
 
-- 
2.43.0


From 7e129e8df38a10931f61b46ff07f9833f101202b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:01:26 +0000
Subject: [PATCH 074/145] fix: associated Legendre functions of odd negative
 order wrap around

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 8bc9a91..39e9f5b 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1.0, m) * fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		for (int i = 0; i < m; ++i)
-- 
2.43.0


From 3704f136b7323aa2491eb1fa6a0ddfc541de59bc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 075/145] fix: bisection on an interval within tolerance
 returns zero

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4d07d06..fee6285 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -70,7 +70,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		real x_avg = 0.0;
+		real x_avg = (a + b) / 2.0;
 		real x_min = a;
 		real x_max = b;
 
-- 
2.43.0


From 1f484e602fad7d52743e485bc765cc9f86270be9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 076/145] fix: Steffensen's method never updates its stopping
 condition

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index fee6285..35df064 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -426,7 +426,7 @@ namespace theoretica {
 
 		while(abs(f_x) > tol && iter <= max_iter) {
 
-			const real f_x = f(x);
+			f_x = f(x);
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
-- 
2.43.0


From 83d2018baaf088cbd1962d8db7d4fbd29bd5f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 077/145] fix: complex Newton's method does not compile

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 35df064..6ef0cf4 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -302,10 +302,10 @@ namespace theoretica {
 		complex<Type> f_z = Type(inf());
 		unsigned int iter = 0;
 
-		while(f_z * f_z.conjugate() > tol * tol && iter <= max_iter) {
+		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
-			z = z - (f_z / df(z));
+			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-- 
2.43.0


From 18cfa93335813b111e906e771975eaf6d13e8525 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 078/145] fix: Steffensen's and Ostrowski's methods return NaN
 at an exact root

---
 src/optimization/roots.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 6ef0cf4..a9f864a 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -427,6 +427,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// An exact root has been found
+			if(f_x == 0)
+				return x;
+
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
@@ -567,6 +572,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// An exact root has been found
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = f(x - u);
-- 
2.43.0


From e1787b6f482a275e4b794fb1ce800d80cca1573d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:09:05 +0000
Subject: [PATCH 079/145] fix: Newton-type methods return NaN at an exact
 multiple root

---
 src/optimization/roots.h | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index a9f864a..8c167cb 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -225,6 +225,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// An exact root has been found
+			if(f_x == 0)
+				return x;
+
 			x = x - (f_x / Df(x));
 			iter++;
 		}
@@ -265,6 +270,11 @@ namespace theoretica {
 			// Compute the function and its derivative at the same time
 			s = f(dual(x, 1.0));
 
+			// An exact root has been found
+			if(s.Re() == 0)
+				return x;
+
+
 			x = x - (s.Re() / s.Dual());
 			iter++;
 		}
@@ -305,6 +315,11 @@ namespace theoretica {
 		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
+
+			// An exact root has been found
+			if(f_z.sqr_norm() == 0)
+				return z;
+
 			z = z - (f_z / Df(z));
 			iter++;
 		}
@@ -344,6 +359,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// An exact root has been found
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 
 			x = x - (2 * f_x * df_x) / (2 * square(df_x) - f_x * D2f(x));
@@ -387,6 +407,11 @@ namespace theoretica {
 			// second derivatives at the same time.
 			s = f(dual2(x, 1, 0));
 
+			// An exact root has been found
+			if(s.Re() == 0)
+				return x;
+
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real d2f_x = s.Dual2();
@@ -478,6 +503,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// An exact root has been found
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 
@@ -526,6 +556,11 @@ namespace theoretica {
 
 			s = f(dual2(x, 1.0, 0.0));
 
+			// An exact root has been found
+			if(s.Re() == 0)
+				return x;
+
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real u = f_x / df_x;
@@ -625,6 +660,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// An exact root has been found
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = Df(x - 2.0 * u / 3.0);
-- 
2.43.0


From b91c1d84a9e607ebf6418478b68e064969e4475e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:09:05 +0000
Subject: [PATCH 080/145] fix: roots on the search grid are found twice or
 missed

---
 src/optimization/roots.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 8c167cb..fc5906a 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -717,16 +717,26 @@ namespace theoretica {
 
 			// Check whether the extremes of the candidate intervals
 			// happen to coincide with the roots
+			bool found = false;
+
 			if(abs(f(intervals[i][0])) <= MACH_EPSILON) {
-				res.push_back(intervals[i][0]);
-				continue;
+
+				// The lower extreme may have already been
+				// found as upper extreme of the last interval
+				if(res.empty() || res.back() != intervals[i][0])
+					res.push_back(intervals[i][0]);
+
+				found = true;
 			}
 
 			if(abs(f(intervals[i][1])) <= MACH_EPSILON) {
 				res.push_back(intervals[i][1]);
-				continue;
+				found = true;
 			}
 
+			if(found)
+				continue;
+
 			// Approximate the roots using bisection inside each interval
 			res.push_back(
 				root_bisect(f, intervals[i][0], intervals[i][1], tol)
-- 
2.43.0


From f670d1dc40c165156d56da080f0c03570e0e4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:09:22 +0000
Subject: [PATCH 081/145] fix: searching the roots of a polynomial does not
 compile

---
 src/optimization/roots.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index fc5906a..90a8419 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -762,15 +762,20 @@ namespace theoretica {
 
 		// Effective order of the polynomial
 		const unsigned int n = p.find_order();
-		p /= p.coeff[n];
+
+		if(n == 0) {
+			TH_MATH_ERROR("roots", n, INVALID_ARGUMENT);
+			return {Field(nan())};
+		}
 
 		// Absolute value of the highest coefficient
-		Field a_hi = abs(p.coeff[n]);
+		// of the associated monic polynomial
+		Field a_hi = 1;
 		Field a_sum = 0;
 
 		// Sum the absolute values of the lesser coefficients
 		for (unsigned int i = 0; i < n; ++i)
-			a_sum += abs(p.coeff[i]);
+			a_sum += abs(p.coeff[i] / p.coeff[n]);
 
 		// The roots are bounded in absolute value by the maximum
 		const Field M = max(a_hi, a_sum);
-- 
2.43.0


From 762ee71901c6effa57365d1f32be4d9d949fdbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:09:22 +0000
Subject: [PATCH 082/145] fix: minimization by bisection returns a maximum
 instead of NaN

---
 src/optimization/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 07f17c3..9f1b3a2 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -194,7 +194,7 @@ namespace theoretica {
 
 		if(deriv_central(Df, z) < 0) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
-			return z;
+			return nan();
 		}
 
 		return z;
-- 
2.43.0


From d647f407f3dba92d23a2ed840c33d711156422b0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:09:22 +0000
Subject: [PATCH 083/145] fix: multivariate extrema search does not compile

---
 src/optimization/multi_extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 4550e80..b9031cc 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -47,7 +47,7 @@ namespace theoretica {
 
 		do {
 
-			grad = gradient(f, x);
+			grad = autodiff::gradient(f, x);
 			x += gamma * grad;
 			iter++;
 
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		do {
 
-			grad = -gradient(f, x);
+			grad = -autodiff::gradient(f, x);
 
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
-- 
2.43.0


From 40dc5d6d08f85cde858656b5be1d6c9df0b6f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:09:22 +0000
Subject: [PATCH 084/145] fix: multivariate extrema search ignores its
 tolerance

---
 src/optimization/multi_extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b9031cc..86e75c7 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -51,7 +51,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
@@ -126,7 +126,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
@@ -177,7 +177,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-- 
2.43.0


From 7848fc6181a564c02ada839d665b3394e4a7ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:09:22 +0000
Subject: [PATCH 085/145] fix: fixed step gradient ascent refuses every step
 size

---
 src/optimization/multi_extrema.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 86e75c7..373e417 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -82,7 +82,29 @@ namespace theoretica {
 		real tolerance = OPTIMIZATION_MINGRAD_TOLERANCE,
 		unsigned int max_iter = OPTIMIZATION_MINGRAD_ITER) {
 
-		return multi_minimize_grad(f, guess, -gamma, tolerance, max_iter);
+		if(gamma >= 0) {
+			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
+			return vec<real, N>(nan());
+		}
+
+		vec<real, N> x = guess;
+		vec<real, N> grad;
+		unsigned int iter = 0;
+
+		do {
+			
+			grad = autodiff::gradient(f, x);
+			x -= gamma * grad;
+			iter++;
+
+		} while(grad.norm() > tolerance && iter <= max_iter);
+
+		if(iter > max_iter) {
+			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
+			return vec<real, N>(nan());
+		}
+
+		return x;
 	}
 
 
-- 
2.43.0


From 2f1286ea2f4486a0189f6cea628cea54f1c37d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:12 +0000
Subject: [PATCH 086/145] fix: Newton-type methods may leave the root they have
 found

---
 src/optimization/roots.h | 60 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 90a8419..1fa51d2 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -219,6 +219,7 @@ namespace theoretica {
 		real tol = OPTIMIZATION_TOL, unsigned int max_iter = OPTIMIZATION_NEWTON_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		real f_x = inf();
 		unsigned int iter = 0;
 
@@ -230,6 +231,7 @@ namespace theoretica {
 			if(f_x == 0)
 				return x;
 
+			x_last = x;
 			x = x - (f_x / Df(x));
 			iter++;
 		}
@@ -239,6 +241,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(f_x) <= tol && !(abs(f(x)) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -261,6 +267,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_NEWTON_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		unsigned int iter = 0;
 
 		dual s = dual(inf(), 0.0);
@@ -275,6 +282,7 @@ namespace theoretica {
 				return x;
 
 
+			x_last = x;
 			x = x - (s.Re() / s.Dual());
 			iter++;
 		}
@@ -284,6 +292,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(s.Re()) <= tol && !(abs(f(dual(x, 0.0)).Re()) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -309,6 +321,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_NEWTON_ITER) {
 
 		complex<Type> z = guess;
+		complex<Type> z_last = guess;
 		complex<Type> f_z = Type(inf());
 		unsigned int iter = 0;
 
@@ -320,6 +333,7 @@ namespace theoretica {
 			if(f_z.sqr_norm() == 0)
 				return z;
 
+			z_last = z;
 			z = z - (f_z / Df(z));
 			iter++;
 		}
@@ -329,6 +343,10 @@ namespace theoretica {
 			return complex<Type>(nan(), nan());
 		}
 
+		// Discard the last step if it moved away from the root
+		if(f_z.sqr_norm() <= tol * tol && !(f(z).sqr_norm() <= tol * tol))
+			return z_last;
+
 		return z;
 	}
 
@@ -353,6 +371,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_HALLEY_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		real f_x = inf();
 		unsigned int iter = 0;
 
@@ -366,6 +385,7 @@ namespace theoretica {
 
 			const real df_x = Df(x);
 
+			x_last = x;
 			x = x - (2 * f_x * df_x) / (2 * square(df_x) - f_x * D2f(x));
 			iter++;
 		}
@@ -375,6 +395,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(f_x) <= tol && !(abs(f(x)) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -398,6 +422,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_HALLEY_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		dual2 s = dual2(inf(), 0.0, 0.0);
 		unsigned int iter = 0;
 
@@ -416,6 +441,7 @@ namespace theoretica {
 			const real df_x = s.Dual1();
 			const real d2f_x = s.Dual2();
 
+			x_last = x;
 			x = x - (2 * f_x * df_x) / (2 * square(df_x) - f_x * d2f_x);
 			iter++;
 		}
@@ -425,6 +451,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(s.Re()) <= tol && !(abs(f(dual2(x, 0.0, 0.0)).Re()) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -446,6 +476,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_STEFFENSEN_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		real f_x = inf();
 		unsigned int iter = 0;
 
@@ -459,6 +490,7 @@ namespace theoretica {
 
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
+			x_last = x;
 			x = x - (f_x / g_x);
 			iter++;
 		}
@@ -468,6 +500,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(f_x) <= tol && !(abs(f(x)) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -497,6 +533,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_CHEBYSHEV_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		real f_x = inf();
 		unsigned int iter = 0;
 
@@ -511,6 +548,7 @@ namespace theoretica {
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 
+			x_last = x;
 			x = x - u - square(u) * D2f(x) / (2.0 * df_x);
 
 			iter++;
@@ -521,6 +559,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(f_x) <= tol && !(abs(f(x)) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -549,6 +591,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_CHEBYSHEV_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		dual2 s = dual2(inf(), 0.0, 0.0);
 		unsigned int iter = 0;
 
@@ -565,6 +608,7 @@ namespace theoretica {
 			const real df_x = s.Dual1();
 			const real u = f_x / df_x;
 
+			x_last = x;
 			x = x - u - square(u) * s.Dual2() / (2.0 * df_x);
 			iter++;
 		}
@@ -574,6 +618,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(s.Re()) <= tol && !(abs(f(dual2(x, 0.0, 0.0)).Re()) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -601,6 +649,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_OSTROWSKI_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		real f_x = inf();
 		unsigned int iter = 0;
 
@@ -616,6 +665,7 @@ namespace theoretica {
 			const real u = f_x / df_x;
 			const real f_xu = f(x - u);
 
+			x_last = x;
 			x = x - u - (f_xu / df_x) * (f_x / (f_x - 2 * f_xu));
 
 			iter++;
@@ -626,6 +676,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(f_x) <= tol && !(abs(f(x)) <= tol))
+			return x_last;
+
 		return x;
 	}
 
@@ -654,6 +708,7 @@ namespace theoretica {
 		unsigned int max_iter = OPTIMIZATION_JARRAT_ITER) {
 
 		real x = guess;
+		real x_last = guess;
 		real f_x = inf();
 		unsigned int iter = 0;
 
@@ -669,6 +724,7 @@ namespace theoretica {
 			const real u = f_x / df_x;
 			const real f_xu = Df(x - 2.0 * u / 3.0);
 
+			x_last = x;
 			x = x - 0.5 * u + f_x / (df_x - 3 * f_xu);
 			iter++;
 		}
@@ -678,6 +734,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Discard the last step if it moved away from the root
+		if(abs(f_x) <= tol && !(abs(f(x)) <= tol))
+			return x_last;
+
 		return x;
 	}
 
-- 
2.43.0


From 1c93ab35cfbf902a4967282444cc690c3efee0ab Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 087/145] fix: Hermitian distance conjugates its second
 argument

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 3c7be56..96b4d44 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -207,7 +207,7 @@ namespace theoretica {
 			complex<T> sum = 0;
 
 			for (size_t i = 0; i < v1.size(); ++i) {
-				const complex<T> diff = v1[i] - conjugate(v2[i]);
+				const complex<T> diff = v1[i] - v2[i];
 				sum += diff * diff.conjugate();
 			}
 
-- 
2.43.0


From 292fd61be120b3b5359266b9a9811bbcd06d9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 088/145] fix: Canberra distance is NaN when two elements are
 both zero

---
 src/algebra/distance.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 96b4d44..9cb61a8 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -312,8 +312,14 @@ namespace theoretica {
 
 			real sum = 0;
 
-			for (size_t i = 0; i < v1.size(); ++i)
-				sum += abs(v1[i] - v2[i]) / (abs(v1[i]) + abs(v2[i]));
+			for (size_t i = 0; i < v1.size(); ++i) {
+
+				const real diff = abs(v1[i] - v2[i]);
+
+				// Terms where both elements are zero do not contribute
+				if(diff != 0)
+					sum += diff / (abs(v1[i]) + abs(v2[i]));
+			}
 
 			return sum;
 		}
-- 
2.43.0


From cba9484f29cd992c8dd1e9380055c19575456183 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 089/145] fix: wrong sign in the rotation matrix around an axis

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e984556..e9e8547 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -196,7 +196,7 @@ namespace theoretica {
 
 			m(0, 0) = c + Rx * Rx * cm1;
 			m(0, 1) = Rx * Ry * cm1 - Rz * s;
-			m(0, 2) = Rx * Rz * cm1 - Ry * s;
+			m(0, 2) = Rx * Rz * cm1 + Ry * s;
 
 			m(1, 0) = Ry * Rx * cm1 + Rz * s;
 			m(1, 1) = c + Ry * Ry * cm1;
-- 
2.43.0


From c640368151dd164fc59cc4fa0c98c913d6fc1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 090/145] fix: rotations around the y and z axes write outside
 3x3 matrices

---
 src/algebra/transform.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e9e8547..1e8ed94 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -286,7 +286,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = 1;
 			m(2, 2) = c;
-			m(3, 3) = 1;
 
 			m(0, 2) = s;
 			m(2, 0) = -s;
@@ -329,7 +328,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = c;
 			m(2, 2) = 1;
-			m(3, 3) = 1;
 
 			m(0, 1) = -s;
 			m(1, 0) = s;
-- 
2.43.0


From b4538a8685ced0b4ce4e30dccac2724bcc18c74d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 091/145] fix: perspective_fov drops the requested matrix size

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 1e8ed94..36c69c8 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -415,7 +415,7 @@ namespace theoretica {
 			const real height = near * tan(radians(fov / 2.f));
 			const real width = height * aspect;
 
-			return perspective<Matrix>(-width, width, -height, height, near, far);
+			return perspective<Matrix>(-width, width, -height, height, near, far, rows, cols);
 		}
 
 
-- 
2.43.0


From bf6f492a2eca6253ee60d2c3008994243565c043 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 092/145] fix: look_at reads outside of its axes

---
 src/algebra/transform.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 36c69c8..80415a5 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -487,19 +487,19 @@ namespace theoretica {
 			Matrix m;
 			m.resize(4, 4);
 
-			m(0, 0) = x_axis[1];
-			m(0, 1) = x_axis[2];
-			m(0, 2) = x_axis[3];
+			m(0, 0) = x_axis[0];
+			m(0, 1) = x_axis[1];
+			m(0, 2) = x_axis[2];
 			m(0, 3) = dot(camera, vec_scalmul(-1.0, x_axis));
 
-			m(1, 0) = y_axis[1];
-			m(1, 1) = y_axis[2];
-			m(1, 2) = y_axis[3];
+			m(1, 0) = y_axis[0];
+			m(1, 1) = y_axis[1];
+			m(1, 2) = y_axis[2];
 			m(1, 3) = dot(camera, vec_scalmul(-1.0, y_axis));
 
-			m(2, 0) = z_axis[1];
-			m(2, 1) = z_axis[2];
-			m(2, 2) = z_axis[3];
+			m(2, 0) = z_axis[0];
+			m(2, 1) = z_axis[1];
+			m(2, 2) = z_axis[2];
 			m(2, 3) = dot(camera, vec_scalmul(-1.0, z_axis));
 
 			m(3, 0) = 0;
-- 
2.43.0


From 34852a1c9f6b18d1dac7f1012c4bf36f105a61ff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:35:43 +0000
Subject: [PATCH 093/145] fix: symplectic accepts static matrices of odd or
 rectangular size

---
 src/algebra/transform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 80415a5..e8bd34d 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -519,8 +519,8 @@ namespace theoretica {
 			if(rows && cols)
 				m.resize(rows, cols);
 
-			if(rows != cols || (rows % 2 != 0)) {
-				TH_MATH_ERROR("algebra::symplectic", rows, INVALID_ARGUMENT);
+			if(m.rows() != m.cols() || (m.rows() % 2 != 0)) {
+				TH_MATH_ERROR("algebra::symplectic", m.rows(), INVALID_ARGUMENT);
 				mat_error(m);
 				return m;
 			}
-- 
2.43.0


From 7e6ff86686b531a871efa2858c06f188a10562ce Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:36:18 +0000
Subject: [PATCH 094/145] fix: orthogonal projection has a null homogeneous
 coordinate

---
 src/algebra/transform.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e8bd34d..aaa3354 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -450,6 +450,7 @@ namespace theoretica {
 			m(3, 1)  = -(top + bottom) / (top - bottom);
 			m(2, 2) = -2 / (far - near);
 			m(3, 2) = -(far + near) / (far - near);
+			m(3, 3) = 1;
 
 			return m;
 		}
-- 
2.43.0


From edf262047678e7b9c6a0bacf8220b6c6497e35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 095/145] fix: autocorrelation is wrong for lags other than one

---
 src/statistics/statistics.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 2c2a88c..3af3837 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -304,20 +304,22 @@ namespace theoretica {
 		template<typename Dataset>
 		inline real autocorrelation(const Dataset& X, unsigned int n = 1) {
 
-			if(X.size() < n) {
+			if(X.size() < n || X.size() == 0) {
 				TH_MATH_ERROR("autocorrelation", X.size(), INVALID_ARGUMENT);
 				return nan();
 			}
 
 			const real mu = mean(X);
 			real num = 0;
-			real den = square(X[0] - mu);
+			real den = 0;
 
-			for (unsigned int i = n; i < X.size(); ++i) {
+			for (unsigned int i = 0; i < X.size(); ++i) {
 
 				const real delta = X[i] - mu;
-				num += delta * (X[i - n] - mu);
 				den += delta * delta;
+
+				if(i >= n)
+					num += delta * (X[i - n] - mu);
 			}
 
 			return num / den;
-- 
2.43.0


From f51e82ea0e0c4c38ca5787b6a8483a7ff51d94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 096/145] fix: the minimum value of a histogram is always minus
 infinity

---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9b0944e..e9d27d2 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -63,7 +63,7 @@ namespace theoretica {
 			/// @param range_min The lower bound of the range
 			/// @param range_max The upper bound of the range
 			histogram(unsigned int bin_count, real range_min, real range_max)
-				: N(0), value_max(-inf()), value_min(-inf()), run_average(0), run_tss(0) {
+				: N(0), value_max(-inf()), value_min(inf()), run_average(0), run_tss(0) {
 
 				bin_counts.resize(bin_count);
 				this->range_max = range_max;
-- 
2.43.0


From f7eb3ec42f2305f0a8ca20b159042b13630c4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 097/145] fix: histogram index exceeds the last bin or
 collapses small ranges

---
 src/statistics/histogram.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index e9d27d2..032a916 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -134,13 +134,16 @@ namespace theoretica {
 			/// so care should be taken to use only valid inputs.
 			inline unsigned int index(real x) const {
 
-				if(abs(x - range_max) < MACH_EPSILON)
+				if(x >= range_max)
 					return bin_counts.size() - 1;
 
-				return floor(
+				const unsigned int i = floor(
 					(x - range_min) / (range_max - range_min)
 					* bin_counts.size()
 				);
+
+				// Rounding may exceed the last bin
+				return i < bin_counts.size() ? i : bin_counts.size() - 1;
 			}
 
 
-- 
2.43.0


From 0dec4bab65ad7ce1f3dc8b770d497b5a2bc8b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 098/145] fix: NaN is not outside of the range of a histogram

---
 src/statistics/histogram.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 032a916..0b5a16d 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -108,7 +108,7 @@ namespace theoretica {
 			/// @param x The value to insert
 			inline void insert(real x) {
 
-				if(x < range_min || x > range_max)
+				if(!(x >= range_min && x <= range_max))
 					return;
 
 				// Update average and TSS using Welford's method
@@ -213,7 +213,7 @@ namespace theoretica {
 			/// @return The value of the histogram function at x
 			inline real operator()(real x) {
 
-				if (x < range_min || x > range_max)
+				if (!(x >= range_min && x <= range_max))
 					return 0.0;
 
 				return bin_counts[index(x)];
-- 
2.43.0


From 8d0fc1ce8235cd0ff33095654a046a7d6f876d22 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 099/145] fix: regression through the origin is not the least
 squares slope

---
 src/statistics/regression.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67d42e6..0454a4c 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -218,17 +218,16 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_x = sum(X);
-			const real sum_y = sum(Y);
+			const real sum_xx = sum_squares(X);
 
-			if(abs(sum_y) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_y, DIV_BY_ZERO);
+			if(abs(sum_xx) < MACH_EPSILON) {
+				TH_MATH_ERROR("ols_linear_orig", sum_xx, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_x / sum_y;
-			sigma_B = sqrt(X.size() * square(sigma_Y / sum_x));
+			B = product_sum(X, Y) / sum_xx;
+			sigma_B = abs(sigma_Y) / sqrt(sum_xx);
 		}
 
 		/// Compute the Weight Least Squares regression
@@ -244,17 +243,16 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_xw = product_sum(X, W);
-			const real sum_yw = product_sum(Y, W);
+			const real sum_xxw = product_sum(X, X, W);
 
-			if(abs(sum_yw) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_yw, DIV_BY_ZERO);
+			if(abs(sum_xxw) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_xw / sum_yw;
-			sigma_B = sqrt(sum(W) / sum_xw);
+			B = product_sum(X, Y, W) / sum_xxw;
+			sigma_B = sqrt(1 / sum_xxw);
 		}
 
 
-- 
2.43.0


From 26f84b15283c2a9696248c139122d4b16ec601ed Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 100/145] fix: the chi-squared of a linear fit is not the sum
 of squared residuals

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 0454a4c..57fdad4 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -425,8 +425,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / sigma_Y;
 				ndf = Y.size() - 2;
+				chi_squared = square(err / sigma_Y) * ndf;
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
@@ -505,8 +505,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / (square(sigma_Y) + square(B * sigma_X));
 				ndf = Y.size() - 2;
+				chi_squared = square(err) * ndf / (square(sigma_Y) + square(B * sigma_X));
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
-- 
2.43.0


From e1d5898fca4fb5e3c0069c9b1141b64a641e3517 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 101/145] fix: Poisson, multinomial and Erlang distributions
 overflow above 20 events

---
 src/statistics/distributions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 1121a78..2183a02 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -100,7 +100,7 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
-			return exp(-lambda) * pow(lambda, k) / (real) fact(k);
+			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
 		}
 
 
@@ -149,10 +149,10 @@ namespace theoretica {
 				return nan();
 			}
 
-			real res = fact(n);
+			real res = fact<real>(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-				res *= pow(p[i], x[i]) / fact(x[i]);
+				res *= pow(p[i], x[i]) / fact<real>(x[i]);
 
 			return res;
 		}
@@ -458,7 +458,7 @@ namespace theoretica {
 			}
 
 			return pow(lambda, k) * pow(x, k - 1)
-					* exp(-lambda * x) / fact(k - 1);
+					* exp(-lambda * x) / fact<real>(k - 1);
 		}
 
 
-- 
2.43.0


From 53cf8ae775a81d58db8cee888c78ebbe8aaeaedd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 102/145] fix: Bernoulli distribution is not null outside of
 its support

---
 src/statistics/distributions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 2183a02..3837961 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -80,6 +80,9 @@ namespace theoretica {
 		/// Bernoulli distribution
 		inline real bernoulli(unsigned int k, real p) {
 
+			if(k > 1)
+				return 0;
+
 			return pow(p, k) * pow(1 - p, 1 - k);
 		}
 
-- 
2.43.0


From 6f36558db9271ff7aedb90b77e9078d3b0a3b40c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 103/145] fix: Maxwell and Erlang densities are not null for
 negative values

---
 src/statistics/distributions.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 3837961..8b2067f 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -390,6 +390,9 @@ namespace theoretica {
 		/// Maxwell-Boltzmann distribution
 		inline real maxwell(real x, real a) {
 
+			if(x < 0)
+				return 0;
+
 			return (SQRT2 / SQRTPI) * square(x) * exp(-square(x / a) / 2.0) / cube(a);
 		}
 
@@ -460,6 +463,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(x < 0)
+				return 0;
+
 			return pow(lambda, k) * pow(x, k - 1)
 					* exp(-lambda * x) / fact<real>(k - 1);
 		}
-- 
2.43.0


From 8c8202ca94cac08d2f605dd965009a947e2edbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 104/145] fix: chi-squared p-values are wrong for few or many
 degrees of freedom

---
 src/statistics/statistics.h | 38 ++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 3af3837..f35bba8 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -526,29 +526,33 @@ namespace theoretica {
 				}
 			}
 
-			// Compute the coefficient using a stable equivalent formula
-			const real coeff = exp(-special::lngamma(ndf / 2.0) - chi_sqr / 2.0);
+			// Sum the recurrence relation of the regularized upper incomplete
+			// Gamma function: Q(a + 1, x) = Q(a, x) + x^a exp(-x) / Gamma(a + 1)
+			// starting from Q(1, x) = exp(-x) or Q(1/2, x) = erfc(sqrt(x))
+			const real x = chi_sqr / 2.0;
+			real a, res, term;
 
-			// Use different methods when Gauss-Laguerre is not numerically stable
-			if((ndf > 70 && chi_sqr < (ndf / 2.0))) {
+			if(ndf % 2 == 0) {
 
-				// Use equivalent formula around potential singularity
-				real res = integral_romberg_tol([=](real x) {
-					return pow(sqrt(x + chi_sqr / 2), ndf - 2) * exp(-x);
-				}, 0, 1, 1E-12);
+				a = 1;
+				res = exp(-x);
+				term = x * exp(-x);
 
-				res += integral_inf_riemann([=](real x) {
-					return exp((ndf - 2) / 2.0 * ln(x + chi_sqr / 2) - x);
-				}, 1, ndf / 2, 1E-12, 25);
+			} else {
 
-				return coeff * res;
+				a = 0.5;
+				res = max(0.0, 1 - 2 / SQRTPI * integral_romberg_tol([](real t) {
+					return exp(-t * t);
+				}, 0, min(sqrt(x), 7.0), 1E-16));
+				term = 2 * sqrt(x) / SQRTPI * exp(-x);
 			}
 
-			// Approximate the integral using Gauss-Laguerre quadrature
-			return coeff * integral_gauss(
-				[=](real x) {
-					return pow(sqrt(x + chi_sqr / 2), ndf - 2);
-			}, tables::laguerre_roots_16, tables::laguerre_weights_16, 16);
+			for (; a < ndf / 2.0; a += 1) {
+				res += term;
+				term *= x / (a + 1);
+			}
+
+			return res;
 		}
 	  
 
-- 
2.43.0


From 2ca022b405a845dca212d8baf0dfe17b411dbedf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:39:36 +0000
Subject: [PATCH 105/145] fix: the tail of chi-squared p-values is integrated
 with no step size

---
 src/statistics/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index f35bba8..b9a850f 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -508,7 +508,7 @@ namespace theoretica {
 					if(new_x < -3)
 						return 1 - integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, -new_x, 1E-16, 25);
+						}, -new_x, 1, 1E-16, 25);
 
 					return 0.5 + integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
@@ -518,7 +518,7 @@ namespace theoretica {
 					if(new_x > 3)
 						return integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, new_x, 1E-16, 25);
+						}, new_x, 1, 1E-16, 25);
 
 					return 0.5 - integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
-- 
2.43.0


From 60f6db09827e54bf92797fb91f36c38f2f90ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:45:08 +0000
Subject: [PATCH 106/145] fix: the linear model does not compile with an error
 for each point

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 57fdad4..7aa6540 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -455,9 +455,9 @@ namespace theoretica {
 
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
-				apply(W, [](real x) {
+				apply([](real x) {
 					return 1.0 / (x * x);
-				});
+				}, W);
 
 				wls_linear(X, Y, W, A, B, covar_mat);
 
-- 
2.43.0


From 21f6cc91a0cd5c27c95b2d9d9a4661f8f7364f7d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:48:56 +0000
Subject: [PATCH 107/145] fix: math_exception cannot be caught as a standard
 exception

---
 src/core/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/error.h b/src/core/error.h
index d2104ee..501fb20 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -86,7 +86,7 @@ namespace theoretica {
 
 #if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
 
-	class math_exception : std::exception {
+	class math_exception : public std::exception {
 
 	private:
 		MATH_ERRCODE err;
-- 
2.43.0


From 7e22a3aa982dc524040441be4ef2fd3c2a703401 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:48:56 +0000
Subject: [PATCH 108/145] fix: range errors are described as unknown by
 math_exception

---
 src/core/error.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/error.h b/src/core/error.h
index 501fb20..732a1e2 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -112,6 +112,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: return "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					return "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: return "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					return "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: return "The algorithm did not converge"; break;
@@ -166,6 +167,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: err_str << "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					err_str << "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: err_str << "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					err_str << "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: err_str << "The algorithm did not converge"; break;
-- 
2.43.0


From b66f4c5651218a06d58e50cf1b4f6f450382ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:54:25 +0000
Subject: [PATCH 109/145] fix: shuffling an empty set divides by zero

---
 src/pseudorandom/prng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 156ae6e..fc306b7 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -210,8 +210,10 @@ namespace theoretica {
 	template<typename Vector>
 	inline void shuffle(Vector& v, PRNG& g, unsigned int rounds = 0) {
 
-		if(v.size() == 0)
+		if(v.size() == 0) {
 			TH_MATH_ERROR("shuffle", v.size(), INVALID_ARGUMENT);
+			return;
+		}
 
 		// The number of rounds defaults to (N - 1)^2
 		if(rounds == 0)
-- 
2.43.0


From 3c8f2a7781b1b663fd27cd8e8fdaa6cc9df9ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:54:25 +0000
Subject: [PATCH 110/145] fix: the congruential generator divides by zero when
 the modulus is null

---
 src/pseudorandom/pseudorandom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pseudorandom/pseudorandom.h b/src/pseudorandom/pseudorandom.h
index 7916277..99d9138 100644
--- a/src/pseudorandom/pseudorandom.h
+++ b/src/pseudorandom/pseudorandom.h
@@ -65,7 +65,7 @@ namespace theoretica {
 		const uint64_t c = state[1];
 		const uint64_t m = state[2];
 
-        if(a > m || c > m) {
+        if(m == 0 || a > m || c > m) {
             TH_MATH_ERROR("randgen_congruential", max(a, c), INVALID_ARGUMENT);
             return 0;
         }
-- 
2.43.0


From 4dec96fd6ceca39e96d59a72cd02ffde0d204337 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:54:25 +0000
Subject: [PATCH 111/145] fix: seeding a xoshiro or wyrand generator has no
 effect

---
 src/pseudorandom/prng.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index fc306b7..2cd160b 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -52,7 +52,17 @@ namespace theoretica {
 
 			/// Seed the PRNG.
 			inline void seed(uint64_t seed) {
-				x = seed;
+
+				const pseudorandom_function xoshiro_f = randgen_xoshiro;
+				const pseudorandom_function wyrand_f = randgen_wyrand;
+
+				// The state of these generators is stored in the parameters
+				if(f == xoshiro_f)
+					*this = PRNG::xoshiro(seed);
+				else if(f == wyrand_f && param.size() == 3)
+					*this = PRNG::wyrand(seed, param[1], param[2]);
+				else
+					x = seed;
 			}
 
 
-- 
2.43.0


From 6aa6cbf57257f8894826c0a54b0864b452a75876 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:54:25 +0000
Subject: [PATCH 112/145] fix: the Box-Muller method takes the logarithm of
 zero when the generator returns zero

---
 src/pseudorandom/sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 8240aab..883874d 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -245,7 +245,7 @@ namespace theoretica {
 
 		// Generate a random point inside the unit circle
 		
-		const real x = rand_uniform(0, 1, g);
+		const real x = 1 - rand_uniform(0, 1, g);
 		const real y = rand_uniform(0, 1, g);
 
 		const real x_transf = sqrt(-2 * ln(x));
-- 
2.43.0


From b1fac7ebfde0b6e610ad27ba4e45315945861dda Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:54:25 +0000
Subject: [PATCH 113/145] fix: rand_cauchy is undefined when the generator
 returns zero

---
 src/pseudorandom/sampling.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 883874d..30d966e 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -397,7 +397,12 @@ namespace theoretica {
 	/// distribution using the quantile (inverse) function method.
 	inline real rand_cauchy(real mu, real alpha, PRNG& g) {
 
-		return alpha * tan(PI * (rand_uniform(0, 1, g) - 0.5)) + mu;
+		// The lower extreme corresponds to minus infinity
+		real u = rand_uniform(0, 1, g);
+		while(u == 0)
+			u = rand_uniform(0, 1, g);
+
+		return alpha * tan(PI * (u - 0.5)) + mu;
 	}
 
 
-- 
2.43.0


From ac69cf888fd5486c2a281c7bee4a36d997145b9a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:54:48 +0000
Subject: [PATCH 114/145] fix: the Metropolis algorithm moves to points of null
 density

---
 src/pseudorandom/sampling.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 30d966e..5dced92 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -587,8 +587,13 @@ namespace theoretica {
 			// Computes the next step
 			next = current + g();
 
-			// Checks acceptance rate
-			if(rand_uniform(0, 1, rnd) * pdf(current) <= pdf(next))
+			const real p_current = pdf(current);
+			const real p_next = pdf(next);
+			const real u = rand_uniform(0, 1, rnd);
+
+			// Checks acceptance rate, never moving to a point
+			// of null density from a point of positive density
+			if(p_next >= p_current || u * p_current < p_next)
 				current = next;
 		}
 
-- 
2.43.0


From 47f83a4237f4991d763b2682175ea4eccfbe1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Tue, 17 Nov 2026 23:54:48 +0000
Subject: [PATCH 115/145] fix: hit-or-miss integration is wrong for functions
 which change sign or have a positive minimum

---
 src/pseudorandom/montecarlo.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/pseudorandom/montecarlo.h b/src/pseudorandom/montecarlo.h
index cc6905a..2377898 100644
--- a/src/pseudorandom/montecarlo.h
+++ b/src/pseudorandom/montecarlo.h
@@ -164,7 +164,7 @@ namespace theoretica {
 		real a, real b, real c, real d,
 		PRNG& g, unsigned int N = 1000) {
 
-		int N_inside = 0;
+		unsigned int N_inside = 0;
 
 		for (unsigned int i = 0; i < N; ++i) {
 		
@@ -173,16 +173,13 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x > y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The area below the minimum is added to the area between
+		// the minimum and the function
+		return (b - a) * (c + (N_inside / static_cast<real>(N)) * (d - c));
 	}
 
 
@@ -230,7 +227,7 @@ namespace theoretica {
 		real a, real b, real c, real d,
 		unsigned int N = 1000) {
 
-		int N_inside = 0;
+		unsigned int N_inside = 0;
 
 		for (unsigned int i = 0; i < N; ++i) {
 
@@ -241,16 +238,13 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x > y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The area below the minimum is added to the area between
+		// the minimum and the function
+		return (b - a) * (c + (N_inside / static_cast<real>(N)) * (d - c));
 	}
 
 
-- 
2.43.0


From fce6770022a5b8a8ef2227c3df1d71b6404a15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 116/145] fix: exp does not terminate for NaN, infinite and
 very large arguments

---
 src/core/real_analysis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 0149553..ae056fb 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -738,10 +738,17 @@ namespace theoretica {
 	/// is approximated using Taylor series on [0, 0.25]
 	inline real exp(real x) {
 
+		if(is_nan(x))
+			return x;
+
 		// Domain reduction to [0, +inf]
 		if(x < 0)
 			return 1.0 / exp(-x);
 
+		// The result overflows, well before the limits of floor(x)
+		if(x > 1E+05)
+			return inf();
+
 		const real fract_x = fract(x);
 		const int floor_x = floor(x);
 
-- 
2.43.0


From 0581b5abe37cca9408eb76ec7a58d483d86eeb6b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 117/145] fix: pow recurses forever when the exponent is the
 smallest integer

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index ae056fb..daa492f 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -624,7 +624,7 @@ namespace theoretica {
 			return res;
 
 		} else if(n < 0) {
-			return T(1.0) / pow(x, -n);
+			return T(1.0) / (x * pow(x, -(n + 1)));
 		} else {
 			return 1;
 		}
-- 
2.43.0


From 2ba173152047742fb250b9138b24b85030e1b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 118/145] fix: tanh and coth return NaN for large arguments

---
 src/core/real_analysis.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index daa492f..9aa326a 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1150,6 +1150,11 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic tangent of x
 	inline real tanh(real x) {
+
+		// Equal to +-1 up to rounding
+		if(abs(x) > 30)
+			return sgn(x);
+
 		real exp_x = exp(x);
 		return (exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x);
 	}
@@ -1159,6 +1164,11 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic cotangent of x
 	inline real coth(real x) {
+
+		// Equal to +-1 up to rounding
+		if(abs(x) > 30)
+			return sgn(x);
+
 		real exp_x = exp(x);
 		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
 	}
-- 
2.43.0


From 00b045d55cfd32485a16e4bb478fdb6ffb727ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 119/145] fix: Newton's iterations of sqrt and cbrt end far
 from the root for large arguments

---
 src/core/real_analysis.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 9aa326a..933aa26 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -171,6 +171,10 @@ namespace theoretica {
 			return 1.0 / sqrt(1.0 / x);
 		}
 
+		// Domain reduction to [1, 2^32]
+		if(x > 4294967296.0)
+			return is_inf(x) ? x : 65536.0 * sqrt(x / 4294967296.0);
+
 		// Approximate sqrt(x) using Newton-Raphson
 		real y = x;
 		unsigned int i = 0;
@@ -213,6 +217,10 @@ namespace theoretica {
 			return 1.0 / cbrt(1.0 / x);
 		}
 
+		// Domain reduction to [1, 2^30]
+		if(x > 1073741824.0)
+			return is_inf(x) ? x : 1024.0 * cbrt(x / 1073741824.0);
+
 		// Approximate cbrt(x) using Newton-Raphson
 		real y = x;
 		unsigned int i = 0;
-- 
2.43.0


From 77100c8b10f314279e89cb16e20dcb1b7db2d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 120/145] fix: root does not terminate for NaN, infinite and
 denormal arguments

---
 src/core/real_analysis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 933aa26..872743f 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -849,6 +849,9 @@ namespace theoretica {
 		if(x < 0)
 			return -root(-x, n);
 
+		if(is_nan(x) || is_inf(x))
+			return x;
+
 		if(x < 1) {
 
 			if(x == 0)
-- 
2.43.0


From 0a0294c7f2169142515f4d67779650d265e7bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 121/145] fix: the portable logarithm recurses forever for
 infinite and denormal arguments

---
 src/core/real_analysis.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 872743f..0bb5202 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -447,7 +447,13 @@ namespace theoretica {
 		return fyl2x(x, 1.0);
 #else
 
+		if (is_nan(x) || is_inf(x))
+			return x;
+
 		// Domain reduction to [1, +inf)
+		if (x < 1.0 / 4294967296.0)
+			return log2(x * 4294967296.0) - 32;
+
 		if (x < 1.0)
 			return -log2(1.0 / x);
 
-- 
2.43.0


From c1e330a0fc86948549d75f97074ec48f70d84b1f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 122/145] fix: asinh and acosh overflow for large arguments

---
 src/core/real_analysis.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 0bb5202..f7d4f55 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1198,6 +1198,10 @@ namespace theoretica {
 		if(x < 0)
 			return -asinh(-x);
 
+		// Avoid the overflow of the square
+		if(x > 1E+10)
+			return ln(x) + LN2;
+
 		return ln(x + sqrt(square(x) + 1));
 	}
 
@@ -1210,6 +1214,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Avoid the overflow of the square
+		if(x > 1E+10)
+			return ln(x) + LN2;
+
 		return ln(x + sqrt(square(x) - 1));
 	}
 
-- 
2.43.0


From 715dd42396d3dba8d42cb9ea5b9fe598db64428d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 123/145] fix: gamma and lngamma are undefined for NaN,
 infinite and very large arguments

---
 src/core/special.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/core/special.h b/src/core/special.h
index 6963ca5..d01a65e 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -61,6 +61,12 @@ namespace theoretica {
 			// Reflection formula for negative values
 			if(x < 0) {
 
+				// Outside of the range of floor(x)
+				if(x <= -2147483647.0) {
+					TH_MATH_ERROR("lngamma", x, OUT_OF_RANGE);
+					return nan();
+				}
+
 				// Check for negative values of Gamma(x)
 				if(floor(-x) % 2 == 0) {
 					TH_MATH_ERROR("lngamma", x, OUT_OF_DOMAIN);
@@ -100,6 +106,19 @@ namespace theoretica {
 		/// @result The Gamma function of x
 		inline real gamma(real x) {
 
+			if(is_nan(x))
+				return x;
+
+			// The result overflows, well before the limits of floor(x)
+			if(x > 1E+05)
+				return inf();
+
+			// Outside of the range of floor(x)
+			if(x <= -2147483647.0) {
+				TH_MATH_ERROR("gamma", x, OUT_OF_RANGE);
+				return nan();
+			}
+
 			const real x_fract = fract(x);
 
 			// Check if x is a pole or an integer number
-- 
2.43.0


From 8665bccca1c25ba5e3f3d3eb75dcaaad7174d7be Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:34:50 +0000
Subject: [PATCH 124/145] fix: trigonometric functions return garbage for
 arguments too large to be reduced

---
 src/core/real_analysis.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index f7d4f55..b992d5e 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -900,6 +900,15 @@ namespace theoretica {
 	}
 
 
+	/// The largest magnitude of the arguments of trigonometric functions
+	/// which may be reduced, limited by x86 instructions or `floor`.
+#ifdef THEORETICA_X86
+	constexpr real MAX_ANGLE = 9.2E+18;
+#else
+	constexpr real MAX_ANGLE = 6.7E+09;
+#endif
+
+
 	/// Compute the sine of a real number
 	/// @param x An angle in **radians**
 	/// @return The sine of x
@@ -908,6 +917,11 @@ namespace theoretica {
 	/// the `fsin` instruction will be used.
 	inline real sin(real x) {
 
+		if(abs(x) > MAX_ANGLE) {
+			TH_MATH_ERROR("sin", x, OUT_OF_RANGE);
+			return nan();
+		}
+
 #ifdef THEORETICA_X86
 
 	#ifdef MSVC_ASM
@@ -956,6 +970,11 @@ namespace theoretica {
 	/// the `fcos` instruction will be used.
 	inline real cos(real x) {
 
+		if(abs(x) > MAX_ANGLE) {
+			TH_MATH_ERROR("cos", x, OUT_OF_RANGE);
+			return nan();
+		}
+
 #ifdef THEORETICA_X86
 
 		#ifdef MSVC_ASM
@@ -983,6 +1002,11 @@ namespace theoretica {
 	/// the `fsincos` instruction will be used if supported by the compiler.
 	inline real tan(real x) {
 
+		if(abs(x) > MAX_ANGLE) {
+			TH_MATH_ERROR("tan", x, OUT_OF_RANGE);
+			return nan();
+		}
+
 #if defined(THEORETICA_X86) && !defined(MSVC_ASM)
 
 		real s, c;
@@ -1025,6 +1049,11 @@ namespace theoretica {
 	/// the `fsincos` instruction will be used if supported by the compiler.
 	inline real cot(real x) {
 
+		if(abs(x) > MAX_ANGLE) {
+			TH_MATH_ERROR("cot", x, OUT_OF_RANGE);
+			return nan();
+		}
+
 		real s, c;
 
 #if defined(THEORETICA_X86) && !defined(MSVC_ASM)
-- 
2.43.0


From d0453ef4a2a0aeae166869966aea139c3ae763f7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:35:50 +0000
Subject: [PATCH 125/145] fix: lngamma loses its argument near zero and
 overflows

---
 src/core/special.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/special.h b/src/core/special.h
index d01a65e..07d728d 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -92,7 +92,7 @@ namespace theoretica {
 			real A5 = c[0];
 
 			for (int i = 1; i < 7; ++i)
-				A5 += c[i] / (x + i - 1);
+				A5 += c[i] / (x + (i - 1));
 
 			return (x - 0.5) * (ln(x + 4.5) - 1)
 					- 5 + ln(SQRTPI * SQRT2 * A5);
-- 
2.43.0


From 642cc47f25bcbc22c8eb9e4d1b3cad36bfaa2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:35:50 +0000
Subject: [PATCH 126/145] fix: atan2 returns zero for NaN on the vertical axis

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index b992d5e..64c0714 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1159,7 +1159,7 @@ namespace theoretica {
 				return nan();
 			}
 
-			return sgn(y) * PI2;
+			return is_nan(y) ? y : sgn(y) * PI2;
 		}
 
 		if(x > 0) {
-- 
2.43.0


From 6ff1aa9e5de24e2da02627ef6bffda6333207ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 01:22:13 +0000
Subject: [PATCH 127/145] fix: fft does not report sizes which are not powers
 of two and shifts out of range for the empty vector

---
 src/signal/fft.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 5d6eefc..8300f0f 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -33,14 +33,15 @@ namespace theoretica {
 			const unsigned int N = x.size();
 			const real sign = (inverse ? 1.0 : -1.0);
 
-			// Compute the logarithm of the size
-			const unsigned int log2N = ilog2(N);
-
 			// Enforce power of 2 vector size
-			if (N != (unsigned int) (1 << log2N)) {
+			if (N == 0 || (N & (N - 1)) != 0) {
+				TH_MATH_ERROR("signal::fft", N, INVALID_ARGUMENT);
 				return algebra::vec_error(k);
 			}
 
+			// Compute the logarithm of the size
+			const unsigned int log2N = ilog2(N);
+
 			// Bit reverse
 			swap_bit_reverse(k, log2N);
 
-- 
2.43.0


From dc18db70152be507ca7a36a6aecadbff0c1d64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 01:22:13 +0000
Subject: [PATCH 128/145] fix: ifft ignores the requested vector type

---
 src/signal/fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 8300f0f..660b282 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -87,7 +87,7 @@ namespace theoretica {
 		/// @return The data in the time domain
 		template<typename ReturnVector = cvec, typename InputVector = cvec>
 		inline ReturnVector ifft(const InputVector& k) {
-			return fft(k, true);
+			return fft<ReturnVector, InputVector>(k, true);
 		}
 	}
 }
-- 
2.43.0


From 378a05f4b2749a7d7afc0f883ed05be3b386cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 01:24:59 +0000
Subject: [PATCH 129/145] fix: the rows of a matrix printed without parentheses
 run into each other

---
 src/algebra/mat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index e02cd1b..3275512 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -667,7 +667,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
@@ -1298,7 +1300,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
-- 
2.43.0


From cb4237fdd0b3b7301877df5ecc8df017615a29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 01:24:59 +0000
Subject: [PATCH 130/145] fix: readln does not terminate at the end of a stream
 without terminator

---
 src/utility.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utility.h b/src/utility.h
index c561ed4..6e3f9f2 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -94,9 +94,7 @@ namespace theoretica {
 		std::string line;
 		Type value;
 
-		while(true) {
-
-			std::getline(in, line);
+		while(std::getline(in, line)) {
 
 			// Stop reading when the terminator is reached.
 			if(line == terminator)
-- 
2.43.0


From 106442d57f1b513cb51b2df82479087c69f2e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 01:43:30 +0000
Subject: [PATCH 131/145] fix: norms and products of empty vectors read out of
 bounds

---
 src/algebra/algebra.h  | 8 ++++++++
 src/algebra/distance.h | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 1af6565..45c438d 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -274,6 +274,10 @@ namespace theoretica {
 		template<typename Vector>
 		inline auto sqr_norm(const Vector& v) {
 
+			// The norm of an empty vector is null
+			if (v.size() == 0)
+				return decltype(pair_inner_product(v[0], v[0]))(0);
+
 			auto sum = pair_inner_product(v[0], v[0]);
 
 			// Use conjugation for complex numbers
@@ -355,6 +359,10 @@ namespace theoretica {
 				return vector_element_t<Vector1>(nan());
 			}
 
+			// The product of empty vectors is null
+			if (v.size() == 0)
+				return vector_element_t<Vector1>(0);
+
 			auto sum = pair_inner_product(v[0], w[0]);
 
 			// Use conjugation for complex numbers
diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 9cb61a8..e4d064c 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -66,6 +66,10 @@ namespace theoretica {
 		template<typename Vector>
 		inline real l2_norm(const Vector& v) {
 
+			// The norm of an empty vector is null
+			if (v.size() == 0)
+				return 0;
+
 			auto sum = pair_inner_product(v[0], v[0]);
 
 			for (unsigned int i = 1; i < v.size(); ++i)
@@ -83,6 +87,10 @@ namespace theoretica {
 		template<typename Vector>
 		inline real linf_norm(const Vector& v) {
 
+			// The norm of an empty vector is null
+			if (v.size() == 0)
+				return 0;
+
 			real res = abs(v[0]);
 
 			for (unsigned int i = 1; i < v.size(); ++i)
-- 
2.43.0


From f4a266a4cf1f27ef89f1f166af58f7dd61d68764 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 01:43:30 +0000
Subject: [PATCH 132/145] fix: trace, diagonal product and determinant of empty
 matrices read out of bounds

---
 src/algebra/algebra.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 45c438d..1d86398 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -562,9 +562,14 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto trace(const Matrix& m) {
 
-			auto sum = m(0, 0);
 			const size_t n = min(m.rows(), m.cols());
 
+			// The trace of an empty matrix is null
+			if (n == 0)
+				return matrix_element_t<Matrix>(0);
+
+			auto sum = m(0, 0);
+
 			for (unsigned int i = 1; i < n; ++i)
 				sum += m(i, i);
 
@@ -580,9 +585,14 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto diagonal_product(const Matrix& m) {
 
-			auto mul = m(0, 0);
 			const size_t n = min(m.rows(), m.cols());
 
+			// The empty product is one
+			if (n == 0)
+				return matrix_element_t<Matrix>(1);
+
+			auto mul = m(0, 0);
+
 			for (unsigned int i = 1; i < n; ++i)
 				mul *= m(i, i);
 
@@ -2055,8 +2065,7 @@ namespace theoretica {
 
 			if (!is_square(A)) {
 				TH_MATH_ERROR("algebra::det", A.rows(), INVALID_ARGUMENT);
-				mat_error(LU);
-				return diagonal_product(LU);
+				return matrix_element_t<Matrix>(nan());
 			}
 
 			// Reduce the matrix to triangular form with partial pivoting
@@ -2088,8 +2097,8 @@ namespace theoretica {
 
 			// The determinant of a triangular matrix
 			// is the product of the elements on its diagonal
-			LU(0, 0) *= sign;
-			return diagonal_product(LU);
+			sign *= diagonal_product(LU);
+			return sign;
 		}
 
 
-- 
2.43.0


From 193a25bbc73badd951dc4baffb5dd1e3e23cb94e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 01:43:30 +0000
Subject: [PATCH 133/145] fix: iterating over a matrix without columns reads
 out of bounds

---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 3275512..f5643d6 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -553,7 +553,7 @@ namespace theoretica {
 		/// Returns an iterator to one past the last element of the matrix.
 		/// @return An iterator to the end of the matrix.
 		inline auto end() {
-			return iterator(*this, rows(), 0);
+			return iterator(*this, cols() ? rows() : 0, 0);
 		}
 
 	
@@ -567,7 +567,7 @@ namespace theoretica {
 		/// Returns a const iterator to one past the last element of the matrix.
 		/// @return A const iterator to the end of the matrix.
 		inline auto end() const {
-			return const_iterator(*this, rows(), 0);
+			return const_iterator(*this, cols() ? rows() : 0, 0);
 		}
 
 	
@@ -1162,7 +1162,7 @@ namespace theoretica {
 		/// representing one past the last element, which is used to indicate
 		/// the end of the iteration.
 		inline auto end() {
-			return iterator(*this, rows(), 0);
+			return iterator(*this, cols() ? rows() : 0, 0);
 		}
 
 
@@ -1182,7 +1182,7 @@ namespace theoretica {
 		/// This function provides a const iterator to the end of the matrix,
 		/// representing one past the last element, for read-only access.
 		inline auto end() const {
-			return const_iterator(*this, rows(), 0);
+			return const_iterator(*this, cols() ? rows() : 0, 0);
 		}
 
 
-- 
2.43.0


From 796f81b18b0ecd0cac75c145bce59cea5affb330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:52 +0000
Subject: [PATCH 134/145] fix: even associated Legendre polynomials of high
 order and negative degree overflowed the integer factorial

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 39e9f5b..02aa356 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -121,7 +121,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= fact(l + m) / fact(l - m);
+			K *= fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		polynomial<real> L = legendre_polynomial(l);
-- 
2.43.0


From f4b7cc6f9118546bd0adb75255d80ed7d1a6116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:00 +0000
Subject: [PATCH 135/145] fix: binomial_coeff did not compile for a floating
 point result

---
 src/core/real_analysis.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 64c0714..e8537e2 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1323,7 +1323,8 @@ namespace theoretica {
 		// the division is split to avoid intermediate overflow
 		for (unsigned int i = 1; i <= m; ++i) {
 			const IntType k = n - m + i;
-			res = (res / i) * k + ((res % i) * k) / i;
+			const IntType q = res / i;
+			res = q * k + ((res - q * i) * k) / i;
 		}
 
 		return res;
-- 
2.43.0


From 0cf9da5f43b61d80a07a8f5655462fb12116ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:00 +0000
Subject: [PATCH 136/145] fix: binomial distribution of more than 67 trials
 overflowed the integer binomial coefficient

---
 src/statistics/distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 8b2067f..c22f249 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -122,7 +122,7 @@ namespace theoretica {
 		/// Binomial distribution function
 		inline real binomial(unsigned int nu, unsigned int n, real p) {
 
-			return binomial_coeff(n, nu) *
+			return binomial_coeff<real>(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
 
-- 
2.43.0


From 5bcaffd61dd468aabf11164d265a45941fc1037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:00 +0000
Subject: [PATCH 137/145] fix: Poisson distribution overflowed to infinity or
 NaN for large counts

---
 src/statistics/distributions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index c22f249..d685d21 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -103,7 +103,13 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
-			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
+			real res = exp(-lambda);
+
+			// Alternate products and divisions to avoid overflow
+			for (unsigned int i = 1; i <= k; ++i)
+				res *= lambda / i;
+
+			return res;
 		}
 
 
-- 
2.43.0


From 593e8d7371c89571b14181358439e3e2180f7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:31 +0000
Subject: [PATCH 138/145] fix: Catalan numbers overflowed before their range
 ended

---
 src/core/real_analysis.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e8537e2..5eda6c8 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1364,7 +1364,18 @@ namespace theoretica {
 	/// The n-th Catalan number
 	template<typename IntType = unsigned long long int>
 	TH_CONSTEXPR inline IntType catalan(unsigned int n) {
-		return binomial_coeff(2 * n, n) / (n + 1);
+
+		IntType res = 1;
+
+		// C_i = C_(i-1) * (4i - 2) / (i + 1), with the division
+		// split to avoid intermediate overflow
+		for (unsigned int i = 1; i <= n; ++i) {
+			const IntType k = 4 * i - 2;
+			const IntType q = res / (i + 1);
+			res = q * k + ((res - q * (i + 1)) * k) / (i + 1);
+		}
+
+		return res;
 	}
 
 }
-- 
2.43.0


From 471efc606ea9f538170ffcc936168ae69ebf7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 139/145] fix: half_gamma overflowed where Gamma(k / 2) is
 still representable

---
 src/core/special.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 07d728d..1154c1d 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -45,9 +45,17 @@ namespace theoretica {
 				return nan();
 			}
 
-			return (k % 2 == 0)
-		        ? fact<real>(k / 2 - 1)
-		        : double_fact<real>(k - 2) * SQRTPI / pow<real>(2, (k - 1) / 2);
+			if(k % 2 == 0)
+				return fact<real>(k / 2 - 1);
+
+			// Double factorial identity, one factor
+			// at a time to avoid overflow
+			real res = SQRTPI;
+
+			for (unsigned int i = 1; i + 2 <= k; i += 2)
+				res *= i / 2.0;
+
+			return res;
 		}
 
 
-- 
2.43.0


From 3f9e66d5dd96dd3ff4be301d62bd809b8c752f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 140/145] fix: complex acos did not return the principal value

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 91c7af9..b617c40 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -137,7 +137,7 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
-		return ln(z + sqrt(square(z) - 1)) * complex<T>(0, -1);
+		return ln(z + complex<T>(0, 1) * sqrt(complex<T>(1, 0) - square(z))) * complex<T>(0, -1);
 	}
 
 
-- 
2.43.0


From 8adbc7aa787dd924d829845a0d7112a5c474a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 141/145] fix: complex tan overflowed for large negative
 imaginary parts

---
 src/complex/complex_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index b617c40..d6afcbe 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -98,6 +98,10 @@ namespace theoretica {
 	template<typename T>
 	inline complex<T> tan(complex<T> z) {
 
+		// The exponentials below would overflow in the lower half-plane
+		if(z.Im() < 0)
+			return -tan(-z);
+
 		const complex<T> t = z * complex<T>(0, 2);
 		return (exp(t) - 1) / (exp(t) + 1) * complex<T>(0, -1);
 	}
-- 
2.43.0


From f7c031cd5f9a924ed555d469459ecc33d0fb58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:01 +0000
Subject: [PATCH 142/145] fix: complex sqrt returned 0 for small arguments

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index d6afcbe..eb286b2 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -112,7 +112,7 @@ namespace theoretica {
 	template<typename T>
 	inline complex<T> sqrt(complex<T> z) {
 
-		if(abs(z.a) < MACH_EPSILON && abs(z.b) < MACH_EPSILON)
+		if(z.norm() == 0)
 			return complex<T>(0);
 
 		return complex<T>(
-- 
2.43.0


From 6d802245949d1fcc0a384877012160d5e90567c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:01 +0000
Subject: [PATCH 143/145] fix: linear regressions judged degenerate data by an
 absolute threshold

---
 src/statistics/regression.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 7aa6540..6a95250 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -38,7 +38,8 @@ namespace theoretica {
 			const real sum_x = sum(X);
 			const real sum_y = sum(Y);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			// Null up to rounding, relatively to the two terms
+			if(abs(Delta) <= X.size() * MACH_EPSILON * X.size() * sum_sqr_x) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				return;
@@ -74,7 +75,8 @@ namespace theoretica {
 			const real sum_x = sum(X);
 			const real sum_y = sum(Y);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			// Null up to rounding, relatively to the two terms
+			if(abs(Delta) <= X.size() * MACH_EPSILON * X.size() * sum_sqr_x) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				return;
@@ -114,7 +116,8 @@ namespace theoretica {
 			const real sum_x = sum(X);
 			const real sum_y = sum(Y);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			// Null up to rounding, relatively to the two terms
+			if(abs(Delta) <= X.size() * MACH_EPSILON * X.size() * sum_sqr_x) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				return;
@@ -154,7 +157,8 @@ namespace theoretica {
 			const real sum_w = sum(W);
 			const real Delta = sum_w * sum_xxw - square(sum_xw);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			// Null up to rounding, relatively to the two terms
+			if(abs(Delta) <= X.size() * MACH_EPSILON * sum_w * sum_xxw) {
 				TH_MATH_ERROR("wls_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				return;
@@ -220,7 +224,7 @@ namespace theoretica {
 
 			const real sum_xx = sum_squares(X);
 
-			if(abs(sum_xx) < MACH_EPSILON) {
+			if(sum_xx == 0) {
 				TH_MATH_ERROR("ols_linear_orig", sum_xx, DIV_BY_ZERO);
 				B = nan();
 				return;
@@ -245,7 +249,7 @@ namespace theoretica {
 
 			const real sum_xxw = product_sum(X, X, W);
 
-			if(abs(sum_xxw) < MACH_EPSILON) {
+			if(sum_xxw == 0) {
 				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
 				B = nan();
 				return;
-- 
2.43.0


From 4f5d49432bccb69b1269e69ec929457039bbaa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:54 +0000
Subject: [PATCH 144/145] fix: LN2, LN10 and LOG10E were truncated to 12 digits

---
 src/core/constants.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/constants.h b/src/core/constants.h
index 4aa399a..9e01cc0 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -243,13 +243,13 @@ namespace theoretica {
 	constexpr real LOG210 = 3.32192809488736218170856773213;
 
 	/// The base-10 logarithm of e
-	constexpr real LOG10E = 0.434294481903;
+	constexpr real LOG10E = 0.434294481903251827651128919;
 
 	/// The natural logarithm of 2
-	constexpr real LN2 = 0.69314718056;
+	constexpr real LN2 = 0.693147180559945309417232121;
 
 	/// The natural logarithm of 10
-	constexpr real LN10 = 2.30258509299;
+	constexpr real LN10 = 2.302585092994045684017991455;
 
 	/// The scalar conversion factor from degrees to radians
 	constexpr real DEG2RAD = 0.017453292519943295474371680598;
-- 
2.43.0


From 94d55735a564b9cd73d1e5311926928daaf911e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:14 +0000
Subject: [PATCH 145/145] fix: make_hermitian did not conjugate the diagonal

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 1d86398..2c02263 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -511,7 +511,7 @@ namespace theoretica {
 			}
 
 			for (unsigned int i = 0; i < m.rows(); ++i) {
-				for (unsigned int j = 0; j < i; ++j) {
+				for (unsigned int j = 0; j <= i; ++j) {
 					
 					const auto buff = m(i, j);
 					m(i, j) = conjugate(m(j, i));
-- 
2.43.0

