From 47f66e9e788339ce16c239f9f3fffc4a50978018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 01/42] fix: minimum/maximum of float arrays propagate nan from
 either operand

---
 src/atop/ops_binary.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d59e778..0b34bd7 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -59,8 +59,9 @@ static const inline void STOREA(__m256i* x, __m256i y) { _mm256_store_si256((__m
 template<typename T> static const inline T AddOp(T x, T y) { return x + y; }
 template<typename T> static const inline T SubOp(T x, T y) { return x - y; }
 template<typename T> static const inline T MulOp(T x, T y) { return x * y; }
-template<typename T> static const inline T MinOp(T x, T y) { return x < y? x : y; }
-template<typename T> static const inline T MaxOp(T x, T y) { return x > y? x : y; }
+// x != x: a nan in either operand is propagated (same as numpy), always false for integers
+template<typename T> static const inline T MinOp(T x, T y) { return (x < y || x != x)? x : y; }
+template<typename T> static const inline T MaxOp(T x, T y) { return (x > y || x != x)? x : y; }
 template<typename T> static const inline double DivOp(T x, T y) { return (double)x / (double)y; }
 template<typename T> static const inline float DivOp(float x, T y) { return x / y; }
 template<typename T> static const inline long double DivOp(long double x, T y) { return x / y; }
@@ -143,8 +144,9 @@ static const inline __m256i MIN_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MIN_OP_256i16(__m256i x, __m256i y) { return _mm256_min_epi16(x, y); }
 static const inline __m256i MIN_OP_256i32(__m256i x, __m256i y) { return _mm256_min_epi32(x, y); }
 static const inline __m256i MIN_OP_256u32(__m256i x, __m256i y) { return _mm256_min_epu32(x, y); }
-static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_min_ps(x, y); }
-static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_min_pd(x, y); }
+// The instruction returns y when either operand is nan, blend to also propagate a nan in x
+static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_min_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_min_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 static const inline __m256i MAX_OP_256i8(__m256i x, __m256i y) { return _mm256_max_epi8(x, y); }
 static const inline __m256i MAX_OP_256u8(__m256i x, __m256i y) { return _mm256_max_epu8(x, y); }
@@ -152,8 +154,9 @@ static const inline __m256i MAX_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MAX_OP_256i16(__m256i x, __m256i y) { return _mm256_max_epi16(x, y); }
 static const inline __m256i MAX_OP_256i32(__m256i x, __m256i y) { return _mm256_max_epi32(x, y); }
 static const inline __m256i MAX_OP_256u32(__m256i x, __m256i y) { return _mm256_max_epu32(x, y); }
-static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_max_ps(x, y); }
-static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_max_pd(x, y); }
+// The instruction returns y when either operand is nan, blend to also propagate a nan in x
+static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_max_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_max_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 // mask off low 32bits
 static const __m256i masklo = _mm256_set1_epi64x(0xFFFFFFFFLL);
-- 
2.43.0


From fb7e53fe1b67cdff2447b9e21403f67f5e118b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 02/42] fix: floor_divide of float arrays uses the fmod based
 algorithm (1.0 // 0.1 is 9)

---
 src/atop/ops_binary.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 0b34bd7..4d223b6 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -78,9 +78,24 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
     }
     else return 0;
 }
-template<typename T> static const inline long double FloorDivOp(long double x, long double y) { if (y == y) return floorl(x / y); else return NAN; }
-template<typename T> static const inline double FloorDivOp(double x, double y) { if (y == y) return floor(x / y); else return NAN; }
-template<typename T> static const inline float FloorDivOp(float x, float y) { if (y == y) return floorf(x / y); else return NAN; }
+
+// Same algorithm as numpy (and python): the quotient is derived from fmod because floor(x / y) is
+// wrong when x / y rounds up to an integer, for example 1.0 // 0.1
+template<typename T> static const inline T FloatFloorDiv(T x, T y) {
+    if (y == 0) return x / y;
+
+    T mod = std::fmod(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && ((y < 0) != (mod < 0))) div -= (T)1.0;
+    if (div == 0) return std::copysign((T)0.0, x / y);
+
+    T result = std::floor(div);
+    if (div - result > (T)0.5) result += (T)1.0;
+    return result;
+}
+template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloatFloorDiv<long double>(x, y); }
+template<typename T> static const inline double FloorDivOp(double x, double y) { return FloatFloorDiv<double>(x, y); }
+template<typename T> static const inline float FloorDivOp(float x, float y) { return FloatFloorDiv<float>(x, y); }
 
 // bitwise operations
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
-- 
2.43.0


From 7badbf6526df4a6a5aad1e201d4e2b0bc9c84d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 03/42] fix: negative and absolute of float arrays handle the
 sign of zero

---
 src/atop/ops_unary.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7d249fc..1706a67 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -181,6 +181,9 @@ const union
 
 
 template<typename T> static const inline T ABS_OP(T x) { return x < 0 ? -x : x; }
+// float abs must clear the sign of -0.0
+template<typename T> static const inline double ABS_OP(double x) { return fabs(x); }
+template<typename T> static const inline float ABS_OP(float x) { return fabsf(x); }
 template<typename T> static const inline double FABS_OP(T x) { return x < 0 ? -x : x; }
 
 // Invalid int mode (consider if we should return invalid when we discover invalid)
@@ -293,15 +296,17 @@ static const inline __m256i NEG_OP_256i16(__m256i x) { const __m256i m8 = _mm256
 static const inline __m256i NEG_OP_256i8(__m256i x) { const __m256i m8 = _mm256_setzero_si256(); return _mm256_sub_epi8(m8, x); }
 
 template<typename T> static const inline __m256  NEG_OP_256(__m256 x) {
-    const __m256 m8 = _mm256_setzero_ps();
+    // flip the sign bit, 0.0 - x would not negate 0.0
+    const __m256 m8 = _mm256_set1_ps(-0.0f);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    return _mm256_xor_ps(m8, x);
 }
 
 template<typename T> static const inline __m256d  NEG_OP_256(__m256d x) {
-    const __m256d m8 = _mm256_setzero_pd();
+    // flip the sign bit, 0.0 - x would not negate 0.0
+    const __m256d m8 = _mm256_set1_pd(-0.0);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    return _mm256_xor_pd(m8, x);
 }
 
 template<typename T> static const inline __m256  ROUND_OP_256(__m256 x) { return _mm_roundme_ps(x); }
-- 
2.43.0


From f2f910a9e97afe534d5fc00ff113796514b1e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 04/42] fix: rint of double arrays rounds half to even

---
 src/atop/ops_unary.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 1706a67..6d7bd82 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -211,9 +211,10 @@ template<typename T> static const inline bool ISNORMAL_OP(T x) { return std::isn
 template<typename T> static const inline bool ISNOTNORMAL_OP(T x) { return !std::isnormal(x); }
 template<typename T> static const inline bool ISNANORZERO_OP(T x) { return x == 0.0 || std::isnan(x); }
 
-template<typename T> static const inline long double ROUND_OP(long double x) { return roundl(x); }
-template<typename T> static const inline double ROUND_OP(double x) { return round(x); }
-template<typename T> static const inline float ROUND_OP(float x) { return roundf(x); }
+// np.rint rounds half to even
+template<typename T> static const inline long double ROUND_OP(long double x) { return rintl(x); }
+template<typename T> static const inline double ROUND_OP(double x) { return rint(x); }
+template<typename T> static const inline float ROUND_OP(float x) { return rintf(x); }
 
 template<typename T> static const inline long double FLOOR_OP(long double x) { return floorl(x); }
 template<typename T> static const inline double FLOOR_OP(double x) { return floor(x); }
-- 
2.43.0


From 4941f07c3bd26e96d8f989e8f6a3c61094d47b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 05/42] fix: one byte comparison does not compare the leading
 elements a second time

---
 src/atop/ops_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atop/ops_compare.cpp b/src/atop/ops_compare.cpp
index e857711..bb1f551 100644
--- a/src/atop/ops_compare.cpp
+++ b/src/atop/ops_compare.cpp
@@ -1238,6 +1238,7 @@ static void CompareInt8(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t l
                     for (int64_t i = 0; i < len; i++) {
                         pDataOutX[i] = COMPARE(pDataInX[i], pDataIn2X[i]);
                     }
+                    return;
                 }
             }
     }
-- 
2.43.0


From 81807c1255b0baac26103b382482ffa2ccd0fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/42] fix: sin, cos, exp and log of double arrays use numpy's
 double precision loops (exp(0.0) was 8.98e307)

---
 src/atop/ops_trig.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index faa1dc5..a4067fe 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -136,13 +136,9 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 
 // Our custom sped up routines
 template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return sin256_ps(x);}
-template<typename T> static const inline __m256d SIN_OP_256(__m256d x) { return sin256_pd(x); }
 template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return cos256_ps(x); }
-template<typename T> static const inline __m256d COS_OP_256(__m256d x) { return cos256_pd(x); }
 template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return log256_ps(x); }
-template<typename T> static const inline __m256d LOG_OP_256(__m256d x) { return log256_pd(x); }
 template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return exp256_ps(x); }
-template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return exp256_pd(x); }
 
 #if defined(RT_COMPILER_MSVC)
 
@@ -585,7 +581,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, SIN_OP<float>, SIN_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, SIN_OP<double>, SIN_OP_256<__m256d>>;
+        // double: avx_mathfun only has single precision polynomials, numpy's own loop is used (multithreaded)
         }
         break;
 
@@ -593,7 +589,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, COS_OP<float>, COS_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, COS_OP<double>, COS_OP_256<__m256d>>;
+        // double: avx_mathfun only has single precision polynomials, numpy's own loop is used (multithreaded)
         }
         break;
     case TRIG_OPERATION::TAN:
@@ -704,7 +700,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, EXP_OP<float>, EXP_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, EXP_OP<double>, EXP_OP_256<__m256d>>;
+        // double: avx_mathfun only has single precision polynomials, numpy's own loop is used (multithreaded)
         }
         break;
 
@@ -732,7 +728,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, LOG_OP<float>, LOG_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, LOG_OP<double>, LOG_OP_256<__m256d>>;
+        // double: avx_mathfun only has single precision polynomials, numpy's own loop is used (multithreaded)
         }
         break;
 
-- 
2.43.0


From 7e91839a8ed60acfaaef6035b626591f903af212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 07/42] fix: float32 sin, cos, exp and log for arguments
 outside the range of the vector routines (zero, inf, nan, subnormal, large)

---
 src/atop/ops_trig.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index a4067fe..fd169e9 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -135,10 +135,28 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 //template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return _mm256_exp_pd(x); }
 
 // Our custom sped up routines
-template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return sin256_ps(x);}
-template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return cos256_ps(x); }
-template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return log256_ps(x); }
-template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return exp256_ps(x); }
+// They are only valid for arguments in (lo, hi).  The other lanes (large arguments, zero, subnormals,
+// results out of range, inf, nan) are computed one at a time.
+template<float SCALAR_OP(float)>
+static FORCE_INLINE __m256 FIX_LANES_256(__m256 x, __m256 result, float lo, float hi) {
+    __m256 valid = _mm256_and_ps(_mm256_cmp_ps(x, _mm256_set1_ps(lo), _CMP_GT_OQ), _mm256_cmp_ps(x, _mm256_set1_ps(hi), _CMP_LT_OQ));
+    int mask = _mm256_movemask_ps(valid);
+    if (mask != 0xff) {
+        float in[8], out[8];
+        _mm256_storeu_ps(in, x);
+        _mm256_storeu_ps(out, result);
+        for (int i = 0; i < 8; i++) {
+            if (!(mask & (1 << i))) out[i] = SCALAR_OP(in[i]);
+        }
+        result = _mm256_loadu_ps(out);
+    }
+    return result;
+}
+
+template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return FIX_LANES_256<sinf>(x, sin256_ps(x), -8192.0f, 8192.0f); }
+template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return FIX_LANES_256<cosf>(x, cos256_ps(x), -8192.0f, 8192.0f); }
+template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return FIX_LANES_256<logf>(x, log256_ps(x), 1.17549435e-38f, 3.4e38f); }
+template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return FIX_LANES_256<expf>(x, exp256_ps(x), -87.0f, 88.0f); }
 
 #if defined(RT_COMPILER_MSVC)
 
-- 
2.43.0


From a809025d52f8da204eb6fba11f0224cae056206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 08/42] fix: accumulate (output overlapping an input) is not
 split over threads or vectorized

np.cumsum and every other ufunc accumulate of 65536 or more elements were wrong,
comparison accumulate (np.equal.accumulate) of bool arrays was wrong from 33 elements.
---
 src/pnumpy/_pnumpy.cpp | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b73b4c1..8ee3955 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -632,6 +632,25 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns true if the output memory overlaps the input memory in any way other than
+// the operation being done in place (such as np.add.accumulate, where the first input is the
+// output shifted by one).  The elements then have to be calculated one at a time, in order.
+static bool
+HasPartialOverlap(const char* pInput, npy_intp stepIn, const char* pOutput, npy_intp stepOut, npy_intp n) {
+    if (n <= 0 || (pInput == pOutput && stepIn == stepOut)) {
+        return false;
+    }
+    // 16 is the largest item size
+    const char* pInputEnd = pInput + stepIn * (n - 1);
+    const char* pOutputEnd = pOutput + stepOut * (n - 1);
+    const char* pInLow = stepIn < 0 ? pInputEnd : pInput;
+    const char* pInHigh = (stepIn < 0 ? pInput : pInputEnd) + 16;
+    const char* pOutLow = stepOut < 0 ? pOutputEnd : pOutput;
+    const char* pOutHigh = (stepOut < 0 ? pOutput : pOutputEnd) + 16;
+    return pInLow < pOutHigh && pOutLow < pInHigh;
+}
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -640,7 +659,9 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
     if (!g_Settings.LedgerEnabled) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        bool isOverlapped = !IS_BINARY_REDUCE &&
+            (HasPartialOverlap(args[0], steps[0], args[2], steps[2], n) || HasPartialOverlap(args[1], steps[1], args[2], steps[2], n));
+        stMATH_WORKER_ITEM* pWorkItem = isOverlapped ? NULL : THREADER->GetWorkItem(n);
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
         if (IS_BINARY_REDUCE) {
@@ -733,14 +754,8 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             // NOT a binary reduce
             ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
-            char* pInput1 = args[0];
-            char* pInput2 = args[1];
-            char* pOutput = args[2];
-
-            // This code needs review: this is only an issue if array is contiguous and output is within
-            // a cacheline of the input (that is, 32 or 64 bytes) because vector intrinsics process in chunks
-            // Check for address overlap where the output memory lies inside input1 or input2
-            if ((pOutput > pInput1&& pOutput < (pInput1 + 64)) || (pOutput > pInput2&& pOutput < (pInput2 + 64))) {
+            // vector intrinsics process in chunks
+            if (isOverlapped) {
                 pBinaryFunc = NULL;
             }
 
@@ -807,8 +822,10 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
-        ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
+        bool isOverlapped =
+            HasPartialOverlap(args[0], steps[0], args[2], steps[2], n) || HasPartialOverlap(args[1], steps[1], args[2], steps[2], n);
+        stMATH_WORKER_ITEM* pWorkItem = isOverlapped ? NULL : THREADER->GetWorkItem(n);
+        ANY_TWO_FUNC pBinaryFunc = isOverlapped ? NULL : pstUFunc->pBinaryFunc;
 
         // Check if threading allowed
         if (!pWorkItem) {
-- 
2.43.0


From b6b8c1e29a2abef0aaf4657c22de271ec425ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 09/42] fix: threaded reductions: only associative operations
 are split, chunk results are combined with their own stride

---
 src/pnumpy/_pnumpy.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 8ee3955..e881ace 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -605,6 +605,7 @@ char*
 GetReduceStartVal(int funcop, int atype) {
     switch (funcop) {
     case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::BITWISE_XOR:
         return g_startval_zero;
 
     case BINARY_OPERATION::MUL:
@@ -632,6 +633,27 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns true if a reduction can be calculated chunk by chunk: the operation must be associative and
+// the value every chunk starts with must not change the result (see GetReduceStartVal).
+// subtract, divide, power, shifts etc. have to be calculated in order.
+static bool
+CanThreadReduce(int funcop) {
+    switch (funcop) {
+    case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::MUL:
+    case BINARY_OPERATION::MIN:
+    case BINARY_OPERATION::MAX:
+    case BINARY_OPERATION::LOGICAL_AND:
+    case BINARY_OPERATION::LOGICAL_OR:
+    case BINARY_OPERATION::BITWISE_AND:
+    case BINARY_OPERATION::BITWISE_OR:
+    case BINARY_OPERATION::BITWISE_XOR:
+        return true;
+    }
+    return false;
+}
+
 //============================================================================
 // Returns true if the output memory overlaps the input memory in any way other than
 // the operation being done in place (such as np.add.accumulate, where the first input is the
@@ -661,7 +683,8 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
         npy_intp n = dimensions[0];
         bool isOverlapped = !IS_BINARY_REDUCE &&
             (HasPartialOverlap(args[0], steps[0], args[2], steps[2], n) || HasPartialOverlap(args[1], steps[1], args[2], steps[2], n));
-        stMATH_WORKER_ITEM* pWorkItem = isOverlapped ? NULL : THREADER->GetWorkItem(n);
+        bool isThreadable = IS_BINARY_REDUCE ? CanThreadReduce(funcop) : !isOverlapped;
+        stMATH_WORKER_ITEM* pWorkItem = isThreadable ? THREADER->GetWorkItem(n) : NULL;
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
         if (IS_BINARY_REDUCE) {
@@ -744,7 +767,10 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                     // todo, check if only 1 dimension for reduce
                     dimensions[0] = chunks;
 
-                    pstUFunc->pOldFunc(newargs, dimensions, steps, innerloop);
+                    // the results of the chunks are contiguous
+                    npy_intp newsteps[3] = { 0, (npy_intp)itemsize, 0 };
+
+                    pstUFunc->pOldFunc(newargs, dimensions, newsteps, innerloop);
                 }
                 // Free if not on the stack
                 POSSIBLY_STACK_FREE(allocsize, pReduceOfReduce);
-- 
2.43.0


From 53561217e1be92ca1d998c831143c01e8c37b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 10/42] fix: reductions load their input unaligned
 (np.multiply.reduce of a uint64 array that is not 32 byte aligned crashed)

---
 src/atop/ops_binary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 4d223b6..5af2a31 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -227,8 +227,8 @@ inline void ReduceMathOpFast(void* pDataIn1X, void* pDataOutX, void* pStartVal,
             pDataIn256 += NUM_LOOPS_UNROLLED;
 
             while (pDataIn256 < pEnd_256) {
-                m0 = MATH_OP256(m0, pDataIn256[0]);
-                m1 = MATH_OP256(m1, pDataIn256[1]);
+                m0 = MATH_OP256(m0, LOADU(pDataIn256));
+                m1 = MATH_OP256(m1, LOADU(pDataIn256 + 1));
                 pDataIn256 += NUM_LOOPS_UNROLLED;
             }
 
-- 
2.43.0


From 3551b8eed7c17767e7972806f00119fdc6f7d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 11/42] fix: float32 sum and product add up the lanes of the
 double register only (read beyond it on the stack)

---
 src/atop/ops_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 5af2a31..3753c03 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -285,7 +285,7 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
         // TJD: testing indicates unrolling size of 2 is 3% faster
         const int64_t NUM_LOOPS_UNROLLED = 2;
         const int64_t chunkSize = NUM_LOOPS_UNROLLED * (sizeof(U256) / sizeof(DOWNCAST));
-        int64_t perReg = sizeof(U256) / sizeof(DOWNCAST);
+        int64_t perReg = sizeof(U256d) / sizeof(UPCAST);
 
         // NOTE: numpy uses the output val to seed the first input
         UPCAST startval = *(DOWNCAST*)pStartVal;
-- 
2.43.0


From 15922623f67d58cbd4703c3e82689f4adbf600a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 12/42] fix: reductions with a comparison (np.equal.reduce of a
 large bool array) are not split over threads

---
 src/pnumpy/_pnumpy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index e881ace..82c8541 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -660,7 +660,8 @@ CanThreadReduce(int funcop) {
 // output shifted by one).  The elements then have to be calculated one at a time, in order.
 static bool
 HasPartialOverlap(const char* pInput, npy_intp stepIn, const char* pOutput, npy_intp stepOut, npy_intp n) {
-    if (n <= 0 || (pInput == pOutput && stepIn == stepOut)) {
+    // NOTE: with a step of 0 it is a reduction (such as np.equal.reduce)
+    if (n <= 0 || (pInput == pOutput && stepIn == stepOut && stepIn != 0)) {
         return false;
     }
     // 16 is the largest item size
-- 
2.43.0


From 06f0c0ace1c59e911833efd0afd72f80dd95fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 13/42] fix: one work item at a time, so that concurrent
 submitters do not disturb each other

---
 src/atop/sort.cpp  |  2 ++
 src/atop/threads.h | 24 +++++++++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 4f7416c..2525952 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2020,6 +2020,7 @@ par_amergesort(
             pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
             if (pWorkSpace == NULL) {
+                THREADER->UnlockWorkItem();
                 return -1;
             }
 
@@ -2149,6 +2150,7 @@ par_sort(
         pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
         if (pWorkSpace == NULL) {
+            THREADER->UnlockWorkItem();
             return -1;
         }
 
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 20214c0..1ae9fe8 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1043,10 +1043,7 @@ public:
         if (NoThreading) {
             return NULL;
         }
-
-        // Otherwise allow parallel processing
-        stMATH_WORKER_ITEM* pWorkItem = pWorkerRings[0]->GetWorkItem();
-        return pWorkItem;
+        return LockWorkItem();
     }
 
 
@@ -1058,21 +1055,28 @@ public:
         if (len < WORK_ITEM_BIG || NoThreading) {
             return NULL;
         }
+        return LockWorkItem();
+    }
 
+    //------------------------------------------------------------------------------
+    // The worker threads process one work item at a time.  Returns NULL when there is already a work
+    // item in progress (threading inside threading, or another python thread).
+    // Otherwise returns a work item, and it must be passed to WorkMain or to UnlockWorkItem.
+    inline stMATH_WORKER_ITEM* LockWorkItem() {
         stWorkerRing* pstRing = pWorkerRings[0];
 
-        // Grab atomic lock in case of threading inside threading
         if (AtopInterlockedOr(&pstRing->ExclusiveLock, 1) == 0) {
-
             // Otherwise allow parallel processing
-            stMATH_WORKER_ITEM* pWorkItem = pstRing->GetWorkItem();
-            pstRing->ExclusiveLock = 0;
-            return pWorkItem;
+            return pstRing->GetWorkItem();
         }
         // could not grab lock
         return NULL;
     }
 
+    inline void UnlockWorkItem() {
+        AtopInterlockedAnd(&pWorkerRings[0]->ExclusiveLock, 0);
+    }
+
     //------------------------------------------------------------------------------
     // Called from main thread
     // This function will divide up the work and wake up any worker threads
@@ -1165,6 +1169,8 @@ public:
         // Mark this as completed
         pWorkerRings[0]->CompleteWorkItem(threadWakeup, pWorkItem);
 
+        // Allow the next work item
+        UnlockWorkItem();
     }
 
 
-- 
2.43.0


From 16ed5869d83abf1a558651e4ffede5d208dbba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 14/42] fix: a worker thread that wakes up late only touches
 the work item it was woken for, and no item or callback argument is reused
 under it

---
 src/atop/common_inc.h |  1 +
 src/atop/threads.cpp  | 19 +++++++++++--------
 src/atop/threads.h    | 31 ++++++++++++++++++++++++++++---
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/atop/common_inc.h b/src/atop/common_inc.h
index 998c531..fbbb12e 100644
--- a/src/atop/common_inc.h
+++ b/src/atop/common_inc.h
@@ -176,6 +176,7 @@ typedef unsigned char       BYTE;
 // consider sync_add_and_fetch
 #define InterlockedAdd64(val, len) (__sync_fetch_and_add(val, len) + len)
 #define InterlockedIncrement64(val) (__sync_fetch_and_add(val, 1) + 1)
+#define InterlockedDecrement64(val) (__sync_fetch_and_add(val, -1) - 1)
 #define InterlockedIncrement(val) (__sync_fetch_and_add(val, 1) + 1)
 #define InterlockedDecrement(val) (__sync_fetch_and_add(val, -1) - 1)
 #define AtopInterlockedOr(val, bitpos) (__sync_fetch_and_or(val, bitpos))
diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index e3f670b..6c97759 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -110,16 +110,19 @@ WorkerThreadFunction(void* lpParam)
 
         // See if work to do
         if (workIndex > workIndexCompleted) {
-            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem();
+            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->AcquireWorkItem(pool, workIndex);
 
-            // check if the work was for our thread
-            if ((int64_t)core <= pWorkItem->ThreadWakeup) {
-                LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
-                didSomeWork = pWorkItem->DoWork(core, pWorkerRing->MainWorkIndex);
-            }
-            else {
-                LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
+            if (pWorkItem) {
+                // check if the work was for our thread
+                if ((int64_t)core <= pWorkItem->ThreadWakeup) {
+                    LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
+                    didSomeWork = pWorkItem->DoWork(core, workIndex);
+                }
+                else {
+                    LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
 
+                }
+                pWorkerRing->ReleaseWorkItem();
             }
         }
 
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 1ae9fe8..6d248f0 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -440,6 +440,9 @@ struct stWorkerRing {
     volatile int64_t       WorkThread;
     stGlobalWorkerParams*   pParams;
 
+    // How many worker threads are looking at the current work item
+    volatile int64_t       ActiveWorkers;
+
 
     stMATH_WORKER_ITEM      WorkerQueue[RING_BUFFER_SIZE];
 
@@ -454,6 +457,7 @@ struct stWorkerRing {
             Pool[j].WorkIndexCompleted = 0;            
         }
         WorkThread = 0;
+        ActiveWorkers = 0;
 
         for (int i = 0; i < RING_BUFFER_SIZE; i++) {
             WorkerQueue[i].BlockSize = 0;
@@ -477,9 +481,22 @@ struct stWorkerRing {
         return pWorkItem;
     }
 
-    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem() {
-        // Note: not safe when multiproc used
-        return  &WorkerQueue[MainWorkIndex  & RING_BUFFER_MASK];
+    //----------------------------------------------
+    // Called by a worker thread that noticed workIndex in its pool.
+    // Returns NULL if that work item was completed in the meantime.
+    // Otherwise the work item stays valid until ReleaseWorkItem is called.
+    FORCE_INLINE stMATH_WORKER_ITEM* AcquireWorkItem(int pool, int64_t workIndex) {
+        InterlockedIncrement64(&ActiveWorkers);
+        volatile stWorkerPool* pPool = &Pool[pool];
+        if (pPool->WorkIndex == workIndex && workIndex > pPool->WorkIndexCompleted) {
+            return &WorkerQueue[workIndex & RING_BUFFER_MASK];
+        }
+        InterlockedDecrement64(&ActiveWorkers);
+        return NULL;
+    }
+
+    FORCE_INLINE void ReleaseWorkItem() {
+        InterlockedDecrement64(&ActiveWorkers);
     }
 
     FORCE_INLINE void WakeupWorkItem(int pool, int32_t maxThreadsToWake) {
@@ -1169,6 +1186,14 @@ public:
         // Mark this as completed
         pWorkerRings[0]->CompleteWorkItem(threadWakeup, pWorkItem);
 
+        // The work item and the callback argument (on the stack) are gone when this routine returns,
+        // wait for any worker thread which is late (the interlocked read is also a memory barrier)
+        if (InterlockedAdd64(&pWorkerRings[0]->ActiveWorkers, 0) > 0) {
+            while (pWorkerRings[0]->ActiveWorkers > 0) {
+                YieldProcessor();
+            }
+        }
+
         // Allow the next work item
         UnlockWorkItem();
     }
-- 
2.43.0


From 9a6b2740fbf24cd0d2f29c4ec321a0b138da461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 15/42] fix: counted work items start at the first index, so
 the first thread that asks does not leave without work (par_amergesort with
 partitions hung when only a thread that was not meant was woken)

---
 src/atop/threads.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index 6d248f0..70e5bf8 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1136,7 +1136,8 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
-        pWorkItem->BlockNext = 0;
+        // the custom mode counts from 1 (see GetNextWorkIndex: 0 is no more work)
+        pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
 
         int32_t threads = (threadWakeup + 1);
-- 
2.43.0


From 4dcfe74a3f7313baef3e18028371db696dce3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 16/42] fix: a forked child does not wait for worker threads it
 does not have

---
 src/atop/threads.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index 6c97759..702799f 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -225,10 +225,23 @@ THANDLE StartThread(stWorkerRing* pWorkerRing)
 
 #else
 
+//-----------------------------------------------------------
+// A forked child has no worker threads, nobody gives back what they (or another thread of the parent) held
+static void AfterForkInChild()
+{
+    if (THREADER && THREADER->pWorkerRings[0]) {
+        THREADER->pWorkerRings[0]->ActiveWorkers = 0;
+        THREADER->pWorkerRings[0]->ExclusiveLock = 0;
+    }
+}
+
 //-----------------------------------------------------------
 //
 THANDLE StartThread(stWorkerRing* pWorkerRing)
 {
+    static int atFork = pthread_atfork(NULL, NULL, AfterForkInChild);
+    (void)atFork;
+
     int err;
     THANDLE hThread;
 
-- 
2.43.0


From 3f09f72f77e25a377fe3681b1d1aea63601ed078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 17/42] fix: report that a parallel sort ran out of memory
 instead of returning an array that is not sorted

---
 src/atop/sort.cpp      | 41 +++++++++++++++++++++++++++++++++--------
 src/pnumpy/sorting.cpp |  9 +++++++--
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 2525952..9441ccb 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1576,6 +1576,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
+    // set to 1 by a thread that could not sort its part (out of memory)
+    volatile int64_t Failed;
+
     // used to synchronize parallel merges
     MERGE_SPLITTER  MergeSplitter;
     //int64_t EndPositions[9];
@@ -1715,7 +1718,9 @@ static int64_t ParArgSortCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int
         char* pWorkSpace1 = Callback->pWorkSpace + (index * Callback->AllocChunk * Callback->TypeSizeOutput);
 
         if (Callback->ArgSortCallbackOne.argsortfunc) {
-            Callback->ArgSortCallbackOne.argsortfunc(Callback->pValues, pToSort1 + (pFirst * Callback->TypeSizeOutput), MergeSize);
+            if (Callback->ArgSortCallbackOne.argsortfunc(Callback->pValues, pToSort1 + (pFirst * Callback->TypeSizeOutput), MergeSize) < 0) {
+                Callback->Failed = 1;
+            }
         }
         else {
             // used for merge sort also (not just string)
@@ -1810,10 +1815,14 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
             CopyData(pSrcData + (pFirst * itemSizeInput), MergeSize, Callback->TypeSizeInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
         if (Callback->SortCallbackOne.sortfunc) {
-            Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
+            if (Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize) < 0) {
+                Callback->Failed = 1;
+            }
         }
         else {
-            Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen);
+            if (Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen) < 0) {
+                Callback->Failed = 1;
+            }
         }
 
         if (IsBuddyBitSet(index, &Callback->MergeSplitter.Level[0])) {
@@ -1949,8 +1958,11 @@ par_amergesort(
             int64_t             sizeofT;
             int64_t             sizeofUINDEX;
 
+            volatile int64_t    failed;
+
         } psort;
 
+        psort.failed = 0;
         psort.funcSingleMerge = single_amergesort<T, UINDEX>;
         psort.pCutOffs = pCutOffs;
         psort.cutOffLength = cutOffLength;
@@ -1987,18 +1999,23 @@ par_amergesort(
 
             // shift the data pointers to match the partition
             // call a single threaded merge
-            callbackArg->funcSingleMerge(
+            if (callbackArg->funcSingleMerge(
                 callbackArg->pValues + (partStart * callbackArg->sizeofT),
                 callbackArg->pToSort + (partStart * callbackArg->sizeofUINDEX),
                 partLength,
                 callbackArg->strlen,
-                callbackArg->sortType);
+                callbackArg->sortType) < 0) {
+                callbackArg->failed = 1;
+            }
 
             return 1;
         };
 
         THREADER->DoMultiThreadedWork((int)cutOffLength, lambdaPSCallback, &psort);
 
+        if (psort.failed) {
+            return -1;
+        }
     }
     else {
 
@@ -2006,6 +2023,7 @@ par_amergesort(
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(arrayLength);
         if (pWorkItem != NULL) {
             MERGE_STEP_ONE_CALLBACK stParMergeCallback;
+            stParMergeCallback.Failed = 0;
             stParMergeCallback.MergeSplitter.SetLevels(arrayLength, 8);
 
             PLOGGING("Parallel version  %p  %p  %p\n", pToSort, pToSort + arrayLength, pValues);
@@ -2065,6 +2083,10 @@ par_amergesort(
             // Free temp memory used
             WORKSPACE_FREE(pWorkSpace);
 
+            if (stParMergeCallback.Failed) {
+                return -1;
+            }
+
         }
         else {
             // TODO
@@ -2072,10 +2094,12 @@ par_amergesort(
             // single threaded sort
 
             if (argSortStepOne.argsortfunc) {
-                argSortStepOne.argsortfunc(
+                if (argSortStepOne.argsortfunc(
                     pValues,
                     pToSort,
-                    arrayLength);
+                    arrayLength) < 0) {
+                    return -1;
+                }
             }
             else {
                 // NOTE: currently all strings use a mergesort since the SWAP function for quicksort is so slow
@@ -2135,6 +2159,7 @@ par_sort(
 
     if (pWorkItem) {
         MERGE_STEP_ONE_CALLBACK stParMergeCallback;
+        stParMergeCallback.Failed = 0;
         //NOTE set this value to 2,4 or 8
         stParMergeCallback.MergeSplitter.SetLevels(arrayLength, 8);
         LOGGING("!! sort with %d cores\n", stParMergeCallback.MergeSplitter.NumCores);
@@ -2178,7 +2203,7 @@ par_sort(
 
         // Free temp memory used
         WORKSPACE_FREE(pWorkSpace);
-        return 0;
+        return stParMergeCallback.Failed ? -1 : 0;
     }
 
     // No threading path
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index ddee8af..2e97e2f 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -472,11 +472,16 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             for (UINDEX i = 0; i < mlp.tupleSize; i++) {
                 int atype = dtype_to_atop(mlp.aInfo[i].NumpyDType);
                 // For each array...
+                int sorted;
                 if (sizeof(UINDEX) == 4) {
-                    SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sorted = SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
                 }
                 else {
-                    SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sorted = SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                }
+                if (sorted < 0) {
+                    Py_DecRef((PyObject*)result);
+                    return PyErr_Format(PyExc_MemoryError, "LexSort out of memory or cannot sort");
                 }
             }
 
-- 
2.43.0


From 3391c3de49943a619ccb984fb2171cb6b99032b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 18/42] fix: sort through the hook sorts the buffer numpy
 passes (a byte-swapped or misaligned array was not sorted or crashed)

---
 src/pnumpy/_pnumpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 82c8541..4d722e2 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1077,7 +1077,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
                         if (PyArray_ITEMSIZE(pSrcObject) == itemsize && PyArray_STRIDE(pSrcObject, 0) == itemsize) {
                             SORT_MODE sortmode = (SORT_MODE)sortkind;
                             int result =
-                                Sort(sortmode, atype, PyArray_BYTES(pSrcObject), ArrayLength(pSrcObject), PyArray_STRIDE(pSrcObject, 1), PyArray_ITEMSIZE(pSrcObject), pDest, PyArray_ITEMSIZE(pSrcObject));
+                                Sort(sortmode, atype, pDest, length, itemsize, itemsize, pDest, itemsize);
 
                             LOGGING("result is %d  %d   len: %lld\n", result, atype, length);
                             if (result >= 0)
-- 
2.43.0


From 811549f1432fd8c45b09e664fa5ae87afd4b67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 19/42] fix: pnumpy.sort with axis=None returned the flattened
 array without sorting it

---
 src/pnumpy/sort.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index 7906b55..d25d47d 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -21,7 +21,7 @@ def _wrapit(obj, method, *args, **kwds):
         wrap = None
     result = getattr(asarray(obj), method)(*args, **kwds)
     if wrap:
-        if not isinstance(result, mu.ndarray):
+        if not isinstance(result, np.ndarray):
             result = asarray(result)
         result = wrap(result)
     return result
@@ -198,12 +198,6 @@ def sort(a, axis=-1, kind=None, order=None):
         # flatten returns (1, N) for np.matrix, so always use the last axis
         a = asanyarray(a).flatten()
         axis = -1
-        try:
-            # attempt a parallel sort
-            sort(a, kind=kind)
-            return a
-        except Exception:
-            pass
     else:
         a = asanyarray(a).copy(order="K")
 
-- 
2.43.0


From 4753f186abfd72677ac066daec3904cf30b38cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 20/42] fix: stable argsort puts nan last (merge step compared
 without nan)

---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 9441ccb..3ce4e97 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1162,7 +1162,7 @@ amergesort0_(UINDEX* pl, UINDEX* pr, const T* v, UINDEX* pw)
         // moving from workspace into left
 
         while (pw < pwEnd && pm < pr) {
-            if (v[*pm] < v[*pw]) {
+            if (COMPARE_LT(v[*pm], v[*pw])) {
                 *pl++ = *pm++;
             }
             else {
-- 
2.43.0


From 29ddbd5993a44b835e24384b397ac0cfca3ff170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 21/42] fix: lexsort checks cutoffs, index and keys (out of
 bounds accesses, SystemError, byte-swapped keys sorted wrongly)

---
 src/pnumpy/common.cpp  |  3 ++-
 src/pnumpy/sorting.cpp | 52 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8cb9acb..b16bfd5 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -703,8 +703,9 @@ ArrayInfo* BuildArrayInfo(
                 //    goto EXIT_ROUTINE;
                 //}
 
-                int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
                 int64_t itemSize = aInfo[i].ItemSize;
+                // a 0-d array has no stride, and the stride means nothing unless there are two elements
+                int64_t stride0 = aInfo[i].ArrayLength > 1 ? (int64_t)PyArray_STRIDE((PyArrayObject*)inObject, 0) : itemSize;
 
                 if (checkrows) {
                     if (aInfo[i].NDim != 1) {
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 2e97e2f..8c5ec3a 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -187,6 +187,11 @@ int64_t* GetCutOffs(PyObject* kwargs, int64_t& cutoffLength) {
     pCutOffs = (PyArrayObject*)GetKwarg(pPyArray_Type, kwargs, "cutoffs");
 
     if (pCutOffs != NULL) {
+        // read as a plain C array
+        if (PyArray_NDIM(pCutOffs) != 1 || !PyArray_ISCARRAY_RO(pCutOffs)) {
+            cutoffLength = -1;
+            return NULL;
+        }
         switch (PyArray_TYPE(pCutOffs)) {
         CASE_NPY_INT64:
             cutoffLength = ArrayLength(pCutOffs);
@@ -324,7 +329,7 @@ public:
         int64_t listSize = 0;
         aInfo = BuildArrayInfo(args, &listSize, &totalItemSize);
 
-        if (aInfo) {
+        if (aInfo && listSize > 0) {
 
             totalRows = aInfo[0].ArrayLength;
 
@@ -379,17 +384,32 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         int64_t* pCutOffs = GetCutOffs(kwargs, cutOffLength);
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_MERGE);
 
-        if (pCutOffs && pCutOffs[cutOffLength - 1] != arraySize1) {
-            PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
-            return NULL;
-        }
         if (cutOffLength == -1) {
             PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an array of type int64_t");
             return NULL;
         }
+        if (pCutOffs) {
+            // the cutoffs have to ascend from 0 to the number of rows
+            int64_t lastCutOff = 0;
+            for (int64_t j = 0; j < cutOffLength; j++) {
+                if (pCutOffs[j] < lastCutOff) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must not descend");
+                    return NULL;
+                }
+                lastCutOff = pCutOffs[j];
+            }
+            if (cutOffLength == 0 || lastCutOff != arraySize1) {
+                PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
+                return NULL;
+            }
+        }
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
+            if (mlp.aInfo[i].pObject == NULL || !PyArray_ISBEHAVED_RO(mlp.aInfo[i].pObject)) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot handle None, a misaligned or a byte-swapped array");
+                return NULL;
+            }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
             if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
@@ -411,7 +431,12 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             return NULL;
         }
 
-        if (indexLength > 0) {
+        if (index != NULL) {
+            if (!PyArray_ISCARRAY(index)) {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' must be contiguous and writeable");
+                return NULL;
+            }
+
             if (indexLength > arraySize1) {
                 PyErr_Format(PyExc_ValueError, "LexSort 'index' is larger than value array");
                 return NULL;
@@ -427,6 +452,15 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 return NULL;
             }
 
+            // every index has to be within the values
+            const UINDEX* pIndex = (const UINDEX*)PyArray_BYTES(index);
+            for (int64_t i = 0; i < indexLength; i++) {
+                if (pIndex[i] < 0 || pIndex[i] >= arraySize1) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'index' is out of bounds");
+                    return NULL;
+                }
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
@@ -489,8 +523,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (!PyErr_Occurred()) {
+        PyErr_Format(PyExc_TypeError, "need sequence of keys with len > 0 in lexsort");
+    }
+    return NULL;
 }
 
 
-- 
2.43.0


From 4580ebb69d1e2b9346d368d7222e140a988a09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 22/42] fix: parallel lexsort of strings merges when the halves
 are out of order

---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 3ce4e97..85d814d 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1288,7 +1288,7 @@ ParMergeMergeString(void* pValue1, void* pToSort1, int64_t totalLen, int64_t str
 
     PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*pm - 1) * strlen, pValue + (*pm + 1) * strlen);
 
-    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*pm - 1) * strlen), strlen)) {
+    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*(pm - 1)) * strlen), strlen)) {
 
         // copy the left to workspace
         MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));
-- 
2.43.0


From 4ccf92b20bdc909bfd914b56c13a3b9235b0e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 23/42] fix: lexsort honours axis, and takes separate keys of
 every type

---
 src/pnumpy/sort.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index d25d47d..884cd97 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -282,10 +282,17 @@ def lexsort(*args, **kwargs):
     array([2, 0, 4, 6, 5, 3, 1])
     """
 
-    try:
-        return lexsort32(*args, **kwargs)
-    except Exception:
-        return np.lexsort(*args, **kwargs)
+    # the keys may also be passed as separate arguments
+    if len(args) > 1 and isinstance(args[0], np.ndarray) and isinstance(args[1], np.ndarray):
+        args = (list(args),)
+
+    # lexsort32 knows one dimensional keys only and no axis
+    if len(args) == 1 and 'axis' not in kwargs:
+        try:
+            return lexsort32(*args, **kwargs)
+        except Exception:
+            pass
+    return np.lexsort(*args, **kwargs)
 
 def argsort(a, axis=-1, kind=None, order=None):
     """
-- 
2.43.0


From 4f6aa6f2cdf157561003a4e190ffff6543b268d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 24/42] fix: threaded getitem of a strided array wrote to the
 wrong place (beyond the output)

---
 src/pnumpy/getitem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b708352..a81763a 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -906,7 +906,8 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
         // Calculate how much to adjust the pointers to get to the data for this work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is contiguous whatever the strides of the values
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING("%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  %lld %lld\n", core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
-- 
2.43.0


From 7e2fe20a1d0e0a223de0e4d522a6757977366364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 25/42] fix: getitem with unsigned indexes (read as signed: out
 of bounds; strings: wrote beyond the output)

---
 src/pnumpy/getitem.cpp | 58 ++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a81763a..34df358 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -690,7 +690,7 @@ static void GetItemUInt(void* aValues, void* aIndex, void* aDataOut, int64_t val
 
             *pDataOut =
                 // Make sure the item is in range
-                index < valLength
+                index < (uint64_t)valLength
                 ? pValues[index]
                 : defaultVal;
             pIndex++;
@@ -704,7 +704,7 @@ static void GetItemUInt(void* aValues, void* aIndex, void* aDataOut, int64_t val
             const INDEX index = *pIndex;
             // Make sure the item is in range; if the index is negative -- but otherwise
             // still in range -- mimic Python's negative-indexing support.
-            if (index < valLength) {
+            if (index < (uint64_t)valLength) {
                 *pDataOut = *(VALUE*)((char*)pValues + (strideValue * index));
             }
             else {
@@ -806,7 +806,7 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
         while (pDataOut != pDataOutEnd) {
             const INDEX index = *pIndex;
             const char* pSrc;
-            if (index < valLength) {
+            if (index < (uint64_t)valLength) {
                 pSrc = pValues + (itemSize * index);
             }
             else {
@@ -826,7 +826,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else {
@@ -834,7 +833,7 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
         while (pDataOut != pDataOutEnd) {
             const INDEX index = *pIndex;
             const char* pSrc;
-            if (index < valLength) {
+            if (index < (uint64_t)valLength) {
                 pSrc = pValues + (strideValue * index);
             }
             else {
@@ -852,7 +851,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
@@ -944,12 +942,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT8:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int8_t>;
-        case 2:  return GetItemUInt<int16_t, int8_t>;
-        case 4:  return GetItemUInt<int32_t, int8_t>;
-        case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<__m128, int8_t>;
-        default: return GetItemUIntVariable<int8_t>;
+        case 1:  return GetItemUInt<int8_t, uint8_t>;
+        case 2:  return GetItemUInt<int16_t, uint8_t>;
+        case 4:  return GetItemUInt<int32_t, uint8_t>;
+        case 8:  return GetItemUInt<int64_t, uint8_t>;
+        case 16:  return GetItemUInt<__m128, uint8_t>;
+        default: return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -965,12 +963,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT16:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int16_t>;
-        case 2:  return GetItemUInt<int16_t, int16_t>;
-        case 4:  return GetItemUInt<int32_t, int16_t>;
-        case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<__m128, int16_t>;
-        default: return GetItemUIntVariable<int16_t>;
+        case 1:  return GetItemUInt<int8_t, uint16_t>;
+        case 2:  return GetItemUInt<int16_t, uint16_t>;
+        case 4:  return GetItemUInt<int32_t, uint16_t>;
+        case 8:  return GetItemUInt<int64_t, uint16_t>;
+        case 16:  return GetItemUInt<__m128, uint16_t>;
+        default: return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -986,12 +984,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT32:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int32_t>;
-        case 2:  return GetItemUInt<int16_t, int32_t>;
-        case 4:  return GetItemUInt<int32_t, int32_t>;
-        case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<__m128, int32_t>;
-        default: return GetItemUIntVariable<int32_t>;
+        case 1:  return GetItemUInt<int8_t, uint32_t>;
+        case 2:  return GetItemUInt<int16_t, uint32_t>;
+        case 4:  return GetItemUInt<int32_t, uint32_t>;
+        case 8:  return GetItemUInt<int64_t, uint32_t>;
+        case 16:  return GetItemUInt<__m128, uint32_t>;
+        default: return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1007,12 +1005,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT64:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int64_t>;
-        case 2:  return GetItemUInt<int16_t, int64_t>;
-        case 4:  return GetItemUInt<int32_t, int64_t>;
-        case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<__m128, int64_t>;
-        default: return GetItemUIntVariable<int64_t>;
+        case 1:  return GetItemUInt<int8_t, uint64_t>;
+        case 2:  return GetItemUInt<int16_t, uint64_t>;
+        case 4:  return GetItemUInt<int32_t, uint64_t>;
+        case 8:  return GetItemUInt<int64_t, uint64_t>;
+        case 16:  return GetItemUInt<__m128, uint64_t>;
+        default: return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From 404e058a20e19bd7238da1dba8a8f013ca1db46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 26/42] fix: getitem of 16 byte items that are not aligned to
 16 bytes crashed

---
 src/pnumpy/getitem.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 34df358..883a276 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -856,6 +856,12 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
 }
 
 
+// Items of 16 bytes: numpy does not align them to 16 bytes
+struct GETITEM_16 {
+    int64_t low;
+    int64_t high;
+};
+
 typedef void(*GETITEM_FUNC)(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t valLength, int64_t itemSize, int64_t len, int64_t strideIndex, int64_t strideValue, void* pDefault);
 struct MBGET_CALLBACK {
     GETITEM_FUNC GetItemCallback;
@@ -936,7 +942,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int8_t>;
         case 4:  return GetItemInt<int32_t, int8_t>;
         case 8:  return GetItemInt<int64_t, int8_t>;
-        case 16:  return GetItemInt<__m128, int8_t>;
+        case 16:  return GetItemInt<GETITEM_16, int8_t>;
         default: return GetItemIntVariable<int8_t>;
         }
         break;
@@ -946,7 +952,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint8_t>;
         case 4:  return GetItemUInt<int32_t, uint8_t>;
         case 8:  return GetItemUInt<int64_t, uint8_t>;
-        case 16:  return GetItemUInt<__m128, uint8_t>;
+        case 16:  return GetItemUInt<GETITEM_16, uint8_t>;
         default: return GetItemUIntVariable<uint8_t>;
         }
         break;
@@ -957,7 +963,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int16_t>;
         case 4:  return GetItemInt<int32_t, int16_t>;
         case 8:  return GetItemInt<int64_t, int16_t>;
-        case 16:  return GetItemInt<__m128, int16_t>;
+        case 16:  return GetItemInt<GETITEM_16, int16_t>;
         default: return GetItemIntVariable<int16_t>;
         }
         break;
@@ -967,7 +973,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint16_t>;
         case 4:  return GetItemUInt<int32_t, uint16_t>;
         case 8:  return GetItemUInt<int64_t, uint16_t>;
-        case 16:  return GetItemUInt<__m128, uint16_t>;
+        case 16:  return GetItemUInt<GETITEM_16, uint16_t>;
         default: return GetItemUIntVariable<uint16_t>;
         }
         break;
@@ -978,7 +984,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int32_t>;
         case 4:  return GetItemInt<int32_t, int32_t>;
         case 8:  return GetItemInt<int64_t, int32_t>;
-        case 16:  return GetItemInt<__m128, int32_t>;
+        case 16:  return GetItemInt<GETITEM_16, int32_t>;
         default: return GetItemIntVariable<int32_t>;
         }
         break;
@@ -988,7 +994,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint32_t>;
         case 4:  return GetItemUInt<int32_t, uint32_t>;
         case 8:  return GetItemUInt<int64_t, uint32_t>;
-        case 16:  return GetItemUInt<__m128, uint32_t>;
+        case 16:  return GetItemUInt<GETITEM_16, uint32_t>;
         default: return GetItemUIntVariable<uint32_t>;
         }
         break;
@@ -999,7 +1005,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int64_t>;
         case 4:  return GetItemInt<int32_t, int64_t>;
         case 8:  return GetItemInt<int64_t, int64_t>;
-        case 16:  return GetItemInt<__m128, int64_t>;
+        case 16:  return GetItemInt<GETITEM_16, int64_t>;
         default: return GetItemIntVariable<int64_t>;
         }
         break;
@@ -1009,7 +1015,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint64_t>;
         case 4:  return GetItemUInt<int32_t, uint64_t>;
         case 8:  return GetItemUInt<int64_t, uint64_t>;
-        case 16:  return GetItemUInt<__m128, uint64_t>;
+        case 16:  return GetItemUInt<GETITEM_16, uint64_t>;
         default: return GetItemUIntVariable<uint64_t>;
         }
         break;
-- 
2.43.0


From 9c690f3dea9e7421d54a83674e6993829db2b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 27/42] fix: boolean index of a strided array left gaps between
 its last items (and wrote beyond the output)

---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 883a276..e4d4721 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -475,7 +475,7 @@ BooleanIndexInternal(
                         for (int64_t i = 0; i < blength; i++) {
                             if (*pBooleanMask++) {
                                 memcpy(pValuesOut, pValuesIn, itemSize);
-                                pValuesOut += strideValues;
+                                pValuesOut += itemSize;
                             }
                             pValuesIn += strideValues;
                         }
-- 
2.43.0


From 590ed445514553a62cbc0197ce680166284b8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 28/42] fix: boolean index: count every chunk also when the
 pool is busy in the first pass only

---
 src/pnumpy/getitem.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index e4d4721..100e411 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -190,22 +190,29 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
             // This means the current function is just responsible for parallelizing over the chunks
             // but doesn't do any real "math" itself.
             int64_t strides = callbackArg->strideBoolean;
-            int64_t total = SumBooleanMask(&pBooleanMask[start * strides], length, strides);
-
-            pChunkCount[start / THREADER->WORK_ITEM_CHUNK] = total;
+            const int64_t chunkSize = THREADER->WORK_ITEM_CHUNK;
+
+            // There is more than one chunk here when not multithreaded
+            do {
+                int64_t chunkLength = length < chunkSize ? length : chunkSize;
+                pChunkCount[start / chunkSize] = SumBooleanMask(&pBooleanMask[start * strides], chunkLength, strides);
+                start += chunkLength;
+                length -= chunkLength;
+            } while (length > 0);
             return TRUE;
         };
 
         BSCallbackStruct stBSCallback;
         stBSCallback.pChunkCount = pChunkCount;
         stBSCallback.pBooleanMask = pBooleanMask;
-        stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
+        stBSCallback.strideBoolean = PyArray_NDIM(aIndex) == 1 ? PyArray_STRIDE(aIndex, 0) : 1;
 
-        BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
+        THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
+        // All chunks are counted even if multithreading is off or the pool is busy:
+        // the pass over the values may be multithreaded nevertheless
         *ppChunkCount = pChunkCount;
-        // if multithreading turned off...
-        return didMtWork ? chunks : 1;
+        return chunks;
     }
     // out of memory
     return 0;
-- 
2.43.0


From f67bb2d14b661044ea8133fe559b6993d0bcf2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 29/42] fix: boolean index of multidimensional arrays (read
 with the stride of the rows: out of bounds)

---
 src/pnumpy/getitem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 100e411..e93b248 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -244,6 +244,11 @@ BooleanIndexInternal(
         return NULL;
     }
 
+    if (!PyArray_SAMESHAPE(aValues, aIndex)) {
+        PyErr_Format(PyExc_ValueError, "The boolean array must have the shape of the array to be indexed.");
+        return NULL;
+    }
+
     // Pass one, count the values
     // Eight at a time
     int64_t lengthBool = ArrayLength(aIndex);
@@ -571,8 +576,9 @@ BooleanIndexInternal(
             stBICallback.pValuesIn = (char*)PyArray_BYTES(aValues);
             stBICallback.pValuesOut = (char*)PyArray_BYTES(pReturnArray);
             stBICallback.itemSize = PyArray_ITEMSIZE(aValues);
-            stBICallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
-            stBICallback.strideValues = PyArray_STRIDE(aValues, 0);
+            // arrays with another number of dimensions are contiguous
+            stBICallback.strideBoolean = PyArray_NDIM(aIndex) == 1 ? PyArray_STRIDE(aIndex, 0) : 1;
+            stBICallback.strideValues = PyArray_NDIM(aValues) == 1 ? PyArray_STRIDE(aValues, 0) : PyArray_ITEMSIZE(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
         }
-- 
2.43.0


From 689f422f86b3d4d860d5bab22e757e90a5aa8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 30/42] fix: indexing keeps byte order, date unit and fields,
 and counts the references to objects

---
 src/pnumpy/common.cpp  | 11 ++++-------
 src/pnumpy/getitem.cpp |  5 +++++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index b16bfd5..aae67c3 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -157,14 +157,11 @@ PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, i
 //-----------------------------------------------------------------------------------
 // NOTE: will only allocate 1 dim arrays
 PyArrayObject* AllocateLikeResize(PyArrayObject* inArr, npy_intp rowSize) {
-    int numpyType = PyArray_TYPE(inArr);
+    // Keep the byte order, the unit of dates and the fields
+    PyArray_Descr* descr = PyArray_DESCR(inArr);
 
-    PyArrayObject* result = NULL;
-
-    int64_t itemSize = PyArray_ITEMSIZE(inArr);
-    result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-
-    return result;
+    Py_INCREF(descr);
+    return (PyArrayObject*)PyArray_NewFromDescr(pPyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
 }
 
 //-----------------------------------------------------------------------------------
diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index e93b248..9236426 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -581,6 +581,11 @@ BooleanIndexInternal(
             stBICallback.strideValues = PyArray_NDIM(aValues) == 1 ? PyArray_STRIDE(aValues, 0) : PyArray_ITEMSIZE(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
+
+            if (PyDataType_REFCHK(PyArray_DESCR(pReturnArray))) {
+                // the result holds references of its own
+                PyArray_INCREF(pReturnArray);
+            }
         }
     }  else {
         // ran out of memory
-- 
2.43.0


From 545d502953225bf60c5f2a3e67e603e04a1ccc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 31/42] fix: getitem read out of bounds for sliding windows,
 and took a byte-swapped index for a native one

---
 src/pnumpy/getitem.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 9236426..029a3b5 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1111,15 +1111,19 @@ getitem(PyObject* self, PyObject* args)
     int result2 = GetStridesAndContig(aIndex, ndimIndex, strideIndex);
 
 
-    // This logic is not quite correct, if the strides on all dimensions are the same, we can use this routine
-    if (result1 != 0) {
-        if (!PyArray_ISCONTIGUOUS(aValues)) {
+    // An array of several dimensions has to be contiguous
+    if (result1 != 0 || ndimValue > 1) {
+        if (result1 != 0 ? !PyArray_ISCONTIGUOUS(aValues) : !PyArray_ISONESEGMENT(aValues)) {
             PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
             return NULL;
         }
     }
-    if (result2 != 0) {
-        if (!PyArray_ISCONTIGUOUS(aIndex)) {
+    if (!PyArray_ISNOTSWAPPED(aIndex)) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle a byte-swapped index array");
+        return NULL;
+    }
+    if (result2 != 0 || ndimIndex > 1) {
+        if (result2 != 0 ? !PyArray_ISCONTIGUOUS(aIndex) : !PyArray_ISONESEGMENT(aIndex)) {
             PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
             return NULL;
         }
-- 
2.43.0


From 0bdd349ec68b8108211c05fc8453ff52ec2b6b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 32/42] fix: getitem default value (misaligned store, garbage
 for strings and other types, read beyond the default)

---
 src/pnumpy/getitem.cpp | 44 +++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 029a3b5..888eb03 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1150,21 +1150,36 @@ getitem(PyObject* self, PyObject* args)
 
         if (outArray) {
             void* pDataOut = PyArray_BYTES(outArray);
-            void* pDefault = GetDefaultForType(numpyValuesType);
+            const bool hasReferences = PyDataType_REFCHK(PyArray_DESCR(aValues));
 
-            // reserve a full 16 bytes for default in case we have oneS
-            char tempDefault[128];
+            // One item of the type of the values for out of range indexes: zero unless there is an invalid value
+            char* pDefault = (char*)WORKSPACE_ALLOC(aValueItemSize + 16);
+            if (!pDefault) {
+                Py_DECREF(outArray);
+                return PyErr_NoMemory();
+            }
+            memset(pDefault, 0, aValueItemSize + 16);
 
             // Check if a default value was passed in as third parameter
             if (defaultValue != Py_None) {
-                BOOL result;
-                int64_t itemSize;
-                void* pTempData = NULL;
-                // Try to convert the scalar
-                result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                if (result) {
-                    // Assign the new default for out of range indexes
-                    pDefault = &tempDefault;
+                if (PyArray_SETITEM(outArray, pDefault, defaultValue) < 0) {
+                    WORKSPACE_FREE(pDefault);
+                    Py_DECREF(outArray);
+                    return NULL;
+                }
+            }
+            else {
+                if (numpyValuesType == NPY_LONGDOUBLE) {
+                    *(npy_longdouble*)pDefault = NAN;
+                }
+                else if (PyTypeNum_ISDATETIME(numpyValuesType)) {
+                    *(npy_int64*)pDefault = NPY_DATETIME_NAT;
+                }
+                else if (PyTypeNum_ISINTEGER(numpyValuesType) || numpyValuesType == NPY_FLOAT || numpyValuesType == NPY_DOUBLE) {
+                    memcpy(pDefault, GetDefaultForType(numpyValuesType), aValueItemSize);
+                }
+                if (!PyArray_ISNOTSWAPPED(aValues)) {
+                    PyArray_DESCR(aValues)->f->copyswap(pDefault, NULL, 1, outArray);
                 }
             }
 
@@ -1207,6 +1222,13 @@ getitem(PyObject* self, PyObject* args)
                 //g_cMathWorker->WorkMain(pWorkItem, aIndexLength);
             }
 
+            if (hasReferences) {
+                // the result holds references of its own
+                PyArray_INCREF(outArray);
+                PyArray_Item_XDECREF(pDefault, PyArray_DESCR(aValues));
+            }
+            WORKSPACE_FREE(pDefault);
+
             return (PyObject*)outArray;
         }
         PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-- 
2.43.0


From c985225b21049943aa84d732e3f23b3e541e04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 33/42] fix: __getitem__ hook: classes derived from ndarray
 keep their type, and work after hook_disable (called a null pointer)

---
 src/pnumpy/_pnumpy.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 4d722e2..561a838 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1719,6 +1719,9 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
     RETURN_NONE;
 }
 
+// Kept when the hook is removed: classes derived from ndarray in the meantime have inherited the hook
+static binaryfunc NumpyOriginalGetItem = NULL;
+
 //---------------------------------------------------------
 // GetItem hook
 //
@@ -1726,7 +1729,8 @@ extern "C"
 PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
 
     // Quick check for an array or we bail
-    if (PyType_IsSubtype(aIndex->ob_type, &PyArray_Type)) {
+    // An array of a derived class has a result of that class
+    if (PyArray_CheckExact(aValues) && PyArray_CheckExact(aIndex)) {
         int32_t numpyValuesType = PyArray_TYPE((PyArrayObject*)aValues);
         int32_t numpyIndexType = PyArray_TYPE((PyArrayObject*)aIndex);
 
@@ -1750,7 +1754,7 @@ PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
             PyErr_Clear();
         }
     }
-    return g_Settings.NumpyGetItem(aValues, aIndex);
+    return NumpyOriginalGetItem(aValues, aIndex);
 }
 
 //---------------------------------------------------------
@@ -1775,6 +1779,7 @@ PyObject * hook_enable(PyObject * self, PyObject * args) {
             // __getitem__
             // Reroute hook
             g_Settings.NumpyGetItem= pNumpyType->tp_as_mapping->mp_subscript;
+            NumpyOriginalGetItem = g_Settings.NumpyGetItem;
             pNumpyType->tp_as_mapping->mp_subscript = GetItemHook;
 
             Py_DECREF(pTemp);
-- 
2.43.0


From 33e7b5b84abd8cd3b7a3941f1c5a44ff22470ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 34/42] fix: recarray_to_colmajor always failed (misspelt
 name); titles, strided, multi-dimensional and empty records

---
 src/atop/recarray.cpp  |  1 +
 src/pnumpy/recarray.py | 24 +++++++++++++-----------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/atop/recarray.cpp b/src/atop/recarray.cpp
index 823d2c8..2c3cebf 100644
--- a/src/atop/recarray.cpp
+++ b/src/atop/recarray.cpp
@@ -137,6 +137,7 @@ void ConvertRecArray(char* pStartOffset, int64_t startRow, int64_t totalRows, st
             }
 
         }
+        startRow = endRow;
     }
 }
 
diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index e18c49b..fa57e65 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -23,27 +23,29 @@ def recarray_to_colmajor(item, parallel=True):
     >>> item=np.tile(x,100_000)
     >>> mydict = recarray_to_colmajor(item)
     """
-    if item.dtype.char == 'V':
+    if item.dtype.names is not None:
         # warnings.warn(f"Converting numpy record array. Performance may suffer.")
         # flip row-major to column-major
-        list_types = [*item.dtype.fields.values()]
-        success = True
-        for t in list_types:
+        # (by name: fields also has an entry for every title)
+        fields = {name: item.dtype.fields[name] for name in item.dtype.names}
+        # the parallel routine walks contiguous records
+        success = item.flags.c_contiguous and item.dtype.itemsize > 0
+        for t in fields.values():
             val = t[0].char
             # if the record type has an object or another record type, we cannot handle
-            if val == 'O' or val =='V':
+            # (nor a string of no characters: numpy makes it one character)
+            if val == 'O' or val =='V' or t[0].itemsize == 0:
                 success = False
                 break;
 
         d={}
-        if successs and parallel:
+        if success and parallel:
             offsets=[]
-            arrays=np.empty(len(item.dtype.fields), dtype='O')
-            arrlen = len(item)
+            arrays=np.empty(len(fields), dtype='O')
             count =0
-            for name, v in item.dtype.fields.items():
+            for name, v in fields.items():
                 offsets.append(v[1])
-                arr= np.empty(arrlen, dtype=v[0])
+                arr= np.empty(item.shape, dtype=v[0])
                 arrays[count] = arr
                 count += 1
                 # build dict of names and new arrays
@@ -55,7 +57,7 @@ def recarray_to_colmajor(item, parallel=True):
         else:
             # single thread way
             for name in item.dtype.names:
-                d[name] = item[:][name].copy()
+                d[name] = np.array(item[name], order='C')
         return d
 
     warnings.warn(f"The array passed was not a numpy record array.")
-- 
2.43.0


From 75a09d7c8338c6dd3e626cbd42cb2f69e210a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 35/42] fix: recarray_to_colmajor extension function checks its
 arguments before writing

---
 src/pnumpy/conversions.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 037b3e4..ddfee78 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -34,7 +34,10 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
     //    return NULL;
     //}
 
-    if (PyTuple_Size(args) == 3) {
+    if (PyTuple_Size(args) == 3 &&
+        PyArray_Check(PyTuple_GET_ITEM(args, 0)) &&
+        PyArray_Check(PyTuple_GET_ITEM(args, 1)) &&
+        PyArray_Check(PyTuple_GET_ITEM(args, 2))) {
         inArr = (PyArrayObject*)PyTuple_GetItem(args, 0);
         offsetArr = (PyArrayObject*)PyTuple_GetItem(args, 1);
         arrArr = (PyArrayObject*)PyTuple_GetItem(args, 2);
@@ -46,7 +49,7 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
 
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
-    if (itemSize != PyArray_STRIDE(inArr, 0)) {
+    if (!PyArray_IS_C_CONTIGUOUS(inArr) || itemSize == 0) {
         PyErr_Format(PyExc_ValueError, "recarray_to_colmajor cannot yet handle strides");
         return NULL;
     }
@@ -61,6 +64,12 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (!PyArray_IS_C_CONTIGUOUS(arrArr) ||
+        !PyArray_EquivTypenums(NPY_INT64, PyArray_TYPE(offsetArr)) || !PyArray_ISCARRAY_RO(offsetArr)) {
+        PyErr_Format(PyExc_ValueError, "recarray_to_colmajor second param must be a contiguous int64 array, third param must be contiguous");
+        return NULL;
+    }
+
     int64_t length = ArrayLength(inArr);
     int64_t numArrays = ArrayLength(arrArr);
 
@@ -73,10 +82,27 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
     int64_t* pOffsets = (int64_t*)PyArray_BYTES(offsetArr);
     PyArrayObject** ppArrays = (PyArrayObject**)PyArray_BYTES(arrArr);
 
+    // every array must have room for its part of every record
+    for (int64_t i = 0; i < numArrays; i++) {
+        PyArrayObject* arr = ppArrays[i];
+        if (arr == NULL || !PyArray_Check((PyObject*)arr) || !PyArray_IS_C_CONTIGUOUS(arr) || !PyArray_ISWRITEABLE(arr) ||
+            PyDataType_REFCHK(PyArray_DESCR(arr)) || ArrayLength(arr) != length) {
+            PyErr_Format(PyExc_ValueError, "recarray_to_colmajor array %lld is not a contiguous, writeable array of the same length", (long long)i);
+            return NULL;
+        }
+        if (pOffsets[i] < 0 || pOffsets[i] > itemSize - (int64_t)PyArray_ITEMSIZE(arr)) {
+            PyErr_Format(PyExc_ValueError, "recarray_to_colmajor offset %lld is outside of the record", (long long)i);
+            return NULL;
+        }
+    }
+
     stRecarrayOffsets* pstOffset;
 
     // TODO allocate this on the stack
     pstOffset = (stRecarrayOffsets*)WORKSPACE_ALLOC(sizeof(stRecarrayOffsets) * numArrays);
+    if (!pstOffset && numArrays) {
+        return PyErr_NoMemory();
+    }
 
     for (int64_t i = 0; i < numArrays; i++) {
         // Consider adding pOffsets here
-- 
2.43.0


From 480caa38fa24f6c0948cbf90c7d24fb97366a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 36/42] fix: arange keeps its first two values (rounding, sign
 of zero, and other threads read them)

---
 src/atop/fill.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/atop/fill.cpp b/src/atop/fill.cpp
index eca8480..ddf9f24 100644
--- a/src/atop/fill.cpp
+++ b/src/atop/fill.cpp
@@ -70,6 +70,12 @@ ArangeFillType(char *pBufferV, void* pFirstV, void* pNextValueV, int64_t start,
 
     delta -= first;
 
+    // The first two values stay as numpy stored them (another thread may be reading them,
+    // and first + 1 * delta is not always the second value, nor -0.0 + 0 * delta the first)
+    if (start < 2) {
+        start = 2;
+    }
+
     // TOOD: vectorize this code
     for (int64_t i = start; i < length; i++) {
         pBuffer[i] = (TYPE)(first + i * delta);
-- 
2.43.0


From b8a9da584d2c162e09de9a5bc6b3aaf4384bc2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 37/42] fix: the ledger setting is not switched off and on
 again around every recorded call (ledger_disable by another thread was lost)

---
 src/pnumpy/_pnumpy.cpp | 27 ++++++++++++++++-----------
 src/pnumpy/ledger.cpp  |  3 ++-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 561a838..ccb77ac 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -347,12 +347,17 @@ stArangeFunc g_ArangeFuncLUT[ATOP_LAST];
 // set to 0 to disable
 stSettings g_Settings = { 1, 0, 0, 0, 0, 0, 0 };
 
+// Set while this thread executes a call that is being recorded
+// (the setting itself stays as it is: other threads use it, and may change it, meanwhile)
+static thread_local int32_t t_LedgerActive = 0;
+#define LEDGER_OFF()      (!g_Settings.LedgerEnabled || t_LedgerActive)
+
 // Macro used just before call a ufunc
-#define LEDGER_START()    g_Settings.LedgerEnabled = 0; int64_t ledgerStartTime = __rdtsc();
+#define LEDGER_START()    t_LedgerActive = 1; int64_t ledgerStartTime = __rdtsc();
 
 // Macro used just after ufunc call returns
-#define LEDGER_END(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
-#define LEDGER_END2(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
+#define LEDGER_END(_cat_) t_LedgerActive = 0; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
+#define LEDGER_END2(_cat_) t_LedgerActive = 0; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
 
 //------------------------------------------------------------------------------
 //  Concurrent callback from multiple threads
@@ -679,7 +684,7 @@ HasPartialOverlap(const char* pInput, npy_intp stepIn, const char* pOutput, npy_
 // 2 inputs and 1 output
 static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
 
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
         bool isOverlapped = !IS_BINARY_REDUCE &&
@@ -845,7 +850,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
 //=============================================================
 // All simple compare functions that we hook hit this routine
 static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
@@ -916,7 +921,7 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
 // For unary math functions like abs, sqrt
 // 1 input and 1 output
 static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_UnaryFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -980,7 +985,7 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
 // All trig and log like function that we hook hit this routine
 //
 static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_TrigFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -1057,7 +1062,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
     //if (!pArrayObject)
     //    printf("pArrayObject is null!\n");
     LOGGING("sort called %d %d   dest:%p  dest:%p\n", sortkind, atype, pDest, PyArray_BYTES((PyArrayObject*)pArrayObject));
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         stSortFunc* pSortFunc = &g_SortFuncLUT[sortkind][atype];
 
         if (g_Settings.AtopEnabled) {
@@ -1102,7 +1107,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
 // All argsort like functions that we hook hit this routine
 static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_intp length, void* pArrayObject, int sortkind, int atype) {
     LOGGING("argsort called %d %d   src:%p\n", sortkind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         stArgSortFunc* pArgSortFunc = &g_ArgSortFuncLUT[sortkind][atype];
         if (g_Settings.AtopEnabled) {
             PyArrayObject* pSrcObject = (PyArrayObject*)pArrayObject;
@@ -1148,7 +1153,7 @@ static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_int
 // All argminmax like functions that we hook hit this routine
 static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* something, void* pArrayObject, int kind, int atype) {
     LOGGING("argminmax called %d %d   src:%p\n", kind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         stArgMinMaxFunc* pArgMinMaxFunc = &g_ArgMinMaxFuncLUT[kind][atype];
         if (g_Settings.AtopEnabled) {
         }
@@ -1165,7 +1170,7 @@ static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* so
 // All arange like functions that we hook hit this routine
 static int AtopArangeMathFunction(void* pValue, npy_intp length, void* unused, int atype) {
     LOGGING("Arange called %d   src:%p\n", atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_OFF()) {
         stArangeFunc* pArangeFunc = &g_ArangeFuncLUT[atype];
         if (g_Settings.AtopEnabled) {
             int itemsize = convert_atop_to_itemsize[atype];
diff --git a/src/pnumpy/ledger.cpp b/src/pnumpy/ledger.cpp
index 59709d8..d80e2fd 100644
--- a/src/pnumpy/ledger.cpp
+++ b/src/pnumpy/ledger.cpp
@@ -241,7 +241,8 @@ void LedgerRecord(int32_t op_category, int64_t start_time, int64_t end_time, cha
     pEntry->StrCatName = strCatName;
     pEntry->StrOpName = g_str_ufunc_name[op_category][funcop];
     pEntry->ArrayLength1 = (int64_t)dimensions[0];
-    pEntry->ArrayLength2 = (int64_t)dimensions[1];
+    // an inner loop has one dimension
+    pEntry->ArrayLength2 = 0;
 
     // temporary for debugging print out results
     printf ("%lld \tlen: %lld   %s,  %s,  %s\n", (long long)deltaTime, (long long)dimensions[0], pEntry->StrOpName, gStrAtopTypes[atype], strCatName);
-- 
2.43.0


From 063d5cd6cf61cc30f3fbf2d69c4c2dd68337484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 38/42] fix: floating point errors raised on the worker threads
 are reported (np.errstate)

---
 src/atop/threads.cpp |  6 ++++++
 src/atop/threads.h   | 21 ++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index 702799f..8ba07ad 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -116,7 +116,13 @@ WorkerThreadFunction(void* lpParam)
                 // check if the work was for our thread
                 if ((int64_t)core <= pWorkItem->ThreadWakeup) {
                     LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
+                    feclearexcept(FE_ALL_EXCEPT);
                     didSomeWork = pWorkItem->DoWork(core, workIndex);
+
+                    int floatErrors = fetestexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW | FE_INVALID);
+                    if (floatErrors) {
+                        pWorkItem->AddFloatErrors(floatErrors);
+                    }
                 }
                 else {
                     LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 70e5bf8..ce951b2 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "common_inc.h"
+#include <fenv.h>
 
 #if defined(__GNUC__)
 #if __GNUC_PREREQ(4, 4) || (__clang__ > 0 && __clang_major__ >= 3) || !defined(__GNUC__)
@@ -243,13 +244,25 @@ struct stMATH_WORKER_ITEM {
 
     // Set to 0 to turn off.  Used to traverse arrays in zigzag pattern
     int32_t             ZigZag;
-    int32_t             reserved1;
+
+    // Floating point errors (FE_DIVBYZERO, ...) raised by the worker threads: raised again
+    // in the calling thread, which is where numpy looks for them.
+    int32_t             FloatErrors;
 
 
     // Current and Last are used to keep cores in their pool until they are completed
     // This should help with L1,L2 caches
     stWorkerChannel     WorkerChannel[MAX_WORKER_HANDLES];
 
+    //==============================================================
+    FORCE_INLINE void AddFloatErrors(int32_t floatErrors) {
+#if defined(_WIN32) && !defined(__GNUC__)
+        _InterlockedOr((volatile long*)&FloatErrors, floatErrors);
+#else
+        __sync_fetch_and_or(&FloatErrors, floatErrors);
+#endif
+    }
+
     //==============================================================
     FORCE_INLINE int64_t GetWorkBlock() {
         int64_t val = InterlockedIncrement64(&BlockNext);
@@ -1136,6 +1149,7 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
+        pWorkItem->FloatErrors = 0;
         // the custom mode counts from 1 (see GetNextWorkIndex: 0 is no more work)
         pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
@@ -1195,6 +1209,11 @@ public:
             }
         }
 
+        // The floating point status is per thread: hand over what the worker threads raised
+        if (pWorkItem->FloatErrors) {
+            feraiseexcept(pWorkItem->FloatErrors);
+        }
+
         // Allow the next work item
         UnlockWorkItem();
     }
-- 
2.43.0


From 30baeb8e320fe4fd34c783c1438bf25bd878d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 39/42] fix: no spurious invalid/overflow reports from the
 float32 sin, cos, exp and log vector routines

---
 src/atop/ops_trig.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index fd169e9..452579c 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -137,10 +137,12 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 // Our custom sped up routines
 // They are only valid for arguments in (lo, hi).  The other lanes (large arguments, zero, subnormals,
 // results out of range, inf, nan) are computed one at a time.
-template<float SCALAR_OP(float)>
-static FORCE_INLINE __m256 FIX_LANES_256(__m256 x, __m256 result, float lo, float hi) {
+// (they must not reach the custom routine, which raises floating point errors for some of them)
+template<float SCALAR_OP(float), __m256 VECTOR_OP(__m256)>
+static FORCE_INLINE __m256 FIX_LANES_256(__m256 x, float lo, float hi) {
     __m256 valid = _mm256_and_ps(_mm256_cmp_ps(x, _mm256_set1_ps(lo), _CMP_GT_OQ), _mm256_cmp_ps(x, _mm256_set1_ps(hi), _CMP_LT_OQ));
     int mask = _mm256_movemask_ps(valid);
+    __m256 result = VECTOR_OP(_mm256_blendv_ps(_mm256_set1_ps(1.0f), x, valid));
     if (mask != 0xff) {
         float in[8], out[8];
         _mm256_storeu_ps(in, x);
@@ -153,10 +155,10 @@ static FORCE_INLINE __m256 FIX_LANES_256(__m256 x, __m256 result, float lo, floa
     return result;
 }
 
-template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return FIX_LANES_256<sinf>(x, sin256_ps(x), -8192.0f, 8192.0f); }
-template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return FIX_LANES_256<cosf>(x, cos256_ps(x), -8192.0f, 8192.0f); }
-template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return FIX_LANES_256<logf>(x, log256_ps(x), 1.17549435e-38f, 3.4e38f); }
-template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return FIX_LANES_256<expf>(x, exp256_ps(x), -87.0f, 88.0f); }
+template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return FIX_LANES_256<sinf, sin256_ps>(x, -8192.0f, 8192.0f); }
+template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return FIX_LANES_256<cosf, cos256_ps>(x, -8192.0f, 8192.0f); }
+template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return FIX_LANES_256<logf, log256_ps>(x, 1.17549435e-38f, 3.4e38f); }
+template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return FIX_LANES_256<expf, exp256_ps>(x, -87.0f, 88.0f); }
 
 #if defined(RT_COMPILER_MSVC)
 
-- 
2.43.0


From b024e637b958136ec2951e96e3680416509e3ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 40/42] fix: floor_divide of nan is not reported as an invalid
 value

---
 src/atop/ops_binary.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 3753c03..4b8d8d0 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -81,16 +81,17 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
 
 // Same algorithm as numpy (and python): the quotient is derived from fmod because floor(x / y) is
 // wrong when x / y rounds up to an integer, for example 1.0 // 0.1
+// NOTE: isless and isgreater do not raise a floating point error for nan
 template<typename T> static const inline T FloatFloorDiv(T x, T y) {
     if (y == 0) return x / y;
 
     T mod = std::fmod(x, y);
     T div = (x - mod) / y;
-    if (mod != 0 && ((y < 0) != (mod < 0))) div -= (T)1.0;
+    if (mod != 0 && (std::isless(y, (T)0) != std::isless(mod, (T)0))) div -= (T)1.0;
     if (div == 0) return std::copysign((T)0.0, x / y);
 
     T result = std::floor(div);
-    if (div - result > (T)0.5) result += (T)1.0;
+    if (std::isgreater(div - result, (T)0.5)) result += (T)1.0;
     return result;
 }
 template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloatFloorDiv<long double>(x, y); }
-- 
2.43.0


From c72c7d32393b1b0f27b57ed114a43a5363c76965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 41/42] fix: comparing nan (compare, minimum, maximum, sign) is
 not reported as an invalid value

---
 src/pnumpy/_pnumpy.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index ccb77ac..f0ad82b 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -679,6 +679,19 @@ HasPartialOverlap(const char* pInput, npy_intp stepIn, const char* pOutput, npy_
     return pInLow < pOutHigh && pOutLow < pInHigh;
 }
 
+//============================================================================
+// numpy clears the floating point status at the end of its comparison, minimum, maximum and sign
+// loops: comparing a nan is not reported to the user as an invalid value.
+static void ClearFloatErrors(int atype) {
+    switch (atype) {
+    case ATOP_HALF_FLOAT:
+    case ATOP_FLOAT:
+    case ATOP_DOUBLE:
+    case ATOP_LONGDOUBLE:
+        feclearexcept(FE_ALL_EXCEPT);
+    }
+}
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -836,6 +849,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                 THREADER->WorkMain(pWorkItem, n, pstUFunc->MaxThreads);
             }
         }
+        if (funcop == BINARY_OPERATION::MIN || funcop == BINARY_OPERATION::MAX) ClearFloatErrors(atype);
         return;
     }
 
@@ -904,6 +918,7 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
             // most functions are so fast, we do not need more than 4 worker threads
             THREADER->WorkMain(pWorkItem, n, pstUFunc->MaxThreads);
         }
+        ClearFloatErrors(atype);
         return;
     }
 
@@ -971,6 +986,7 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
             // most functions are so fast, we do not need more than 4 worker threads
             THREADER->WorkMain(pWorkItem, n, pstUFunc->MaxThreads);
         }
+        if (funcop == UNARY_OPERATION::SIGN) ClearFloatErrors(atype);
         return;
     }
     // Ledger is on, turn it off and call back to ourselves to time it    
-- 
2.43.0


From 2031417a01cad7211e67575c2757d9cde4271dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:48 +0000
Subject: [PATCH 42/42] fix: a large reduction does without the threads when
 its work space cannot be allocated (it crashed)

---
 src/pnumpy/_pnumpy.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index f0ad82b..7ab6b2d 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -713,6 +713,22 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             LOGGING("pReduce %p   opcode:%d   dtype:%d   %lld %lld %lld %lld\n", pReduceFunc, funcop, atype, (long long)dimensions[0], (long long)steps[0], (long long)steps[1], (long long)steps[2]);
             char* ip2 = args[1];
             char* op1 = args[0];
+
+            int64_t itemsize = convert_atop_to_itemsize[atype];
+            int64_t chunks = 1 + ((n - 1) / THREADER->WORK_ITEM_CHUNK);
+            int64_t allocsize = chunks * itemsize;
+            char* pReduceOfReduce = NULL;
+
+            if (pWorkItem) {
+                // try to alloc on stack for speed
+                pReduceOfReduce = POSSIBLY_STACK_ALLOC(allocsize);
+                if (!pReduceOfReduce) {
+                    // out of memory, do without the threads
+                    THREADER->UnlockWorkItem();
+                    pWorkItem = NULL;
+                }
+            }
+
             if (!pWorkItem) {
                 // Not threaded
                 if (g_Settings.AtopEnabled && pReduceFunc) {
@@ -726,13 +742,6 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             }
             else {
                 // Threaded
-                int64_t itemsize = convert_atop_to_itemsize[atype];
-                int64_t chunks = 1 + ((n - 1) / THREADER->WORK_ITEM_CHUNK);
-                int64_t allocsize = chunks * itemsize;
-
-                // try to alloc on stack for speed
-                char* pReduceOfReduce = POSSIBLY_STACK_ALLOC(allocsize);
-
                 UFUNC_CALLBACK stCallback;
 
                 // See if we need a special start value (for SUM and PROD)
-- 
2.43.0

