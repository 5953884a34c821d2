From b0adafa5b3a7af9cb0a33a1d0e65147330838720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:46 +0000
Subject: [PATCH 01/24] fix: kbnsum: use the stride of x when scanning past an
 infinity

The loop that looks for a nan (or an opposite infinity) after the first
infinite element indexed x as if it were contiguous, so a strided input
was read at the wrong elements, and possibly past its end.
---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From 4513b052e7e69fb95a976ac370190afa365380ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:46 +0000
Subject: [PATCH 02/24] fix: bincount: ignore unsigned values greater than
 NPY_MAX_INTP

Such values became negative when cast to npy_intp, passed the check
against m, and caused a write outside of the output array.
---
 src/bincount/bincount_gufunc.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..14d67e1 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -14,6 +14,21 @@
 #include "../src/util/strided.hpp"
 
 
+//
+// Return true if 0 <= k < m.
+//
+// The upper bound is checked with an unsigned comparison, because values
+// of an unsigned 64 bit k that are greater than NPY_MAX_INTP would be
+// negative after a cast to npy_intp.
+//
+template<typename T>
+static inline bool
+is_bin_index(T k, npy_intp m)
+{
+    return k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m);
+}
+
+
 //
 // `bincount_core_calc` is the C++ core function
 // for the gufunc `bincount` with signature '(n)->(m)'
@@ -36,7 +51,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (is_bin_index(k, m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +59,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (is_bin_index(k, m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +68,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (is_bin_index(k, m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +97,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (is_bin_index(k, m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +145,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (is_bin_index(k, m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From eb4fcc8bae3a40adc041d6e46022024c1f4d5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:23 +0000
Subject: [PATCH 03/24] fix: linear_interp1d: don't read past the end of xp and
 fp

The code path for a scalar x and a single xp did not check for n == 0,
and a nan in x (or in the ends of xp) was passed to the search function,
which with n == 1 caused element 1 of xp and fp to be read.
---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..1328d03 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -89,14 +89,14 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp xp_stride = steps[4];
     npy_intp fp_stride = steps[5];
 
-    if ((steps[0] == 0) && (steps[1] == 0)) {
+    if (n > 0 && (steps[0] == 0) && (steps[1] == 0)) {
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp, or if any of these values is NAN.
             for (int j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
@@ -133,9 +133,9 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         @ctype@ x = *((@ctype@ *) px);
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp, or if any of these values is NAN.
             *((@ctype@ *) pout) = NPY_NAN;
             continue;
         }
-- 
2.43.0


From 9540122e496113e87827eea03be580732aab8081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 04/24] fix: convert_to_base: don't crash when base is 0 or -1

Integer division by zero, and the division of the most negative integer
by -1, killed the process with SIGFPE.
---
 src/convert_to_base/convert_to_base_gufunc.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..c382a27 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -4,6 +4,9 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <cfenv>
+#include <type_traits>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -21,6 +24,21 @@ static void convert_to_base_core_calc(
     T k = *p_k;
     T base = *p_base;
     for (npy_intp i = 0; i < n; ++i) {
+        if (base == 0) {
+            // Like NumPy's integer division: warn, and the result is 0.
+            std::feraiseexcept(FE_DIVBYZERO);
+            set(p_out, out_stride, i, static_cast<T>(0));
+            continue;
+        }
+        if constexpr (std::is_signed_v<T>) {
+            if (base == -1) {
+                // All the digits are 0.  This case is handled separately
+                // because the division of the most negative integer by -1
+                // overflows.
+                set(p_out, out_stride, i, static_cast<T>(0));
+                continue;
+            }
+        }
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
     }
-- 
2.43.0


From edca4d7f8f244f15d854c9daaa48b6444ceb423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:51 +0000
Subject: [PATCH 05/24] fix: unwrap: don't convert the number of periods to int

The conversion is undefined when the number of periods does not fit in
an int, or is nan (e.g. when the first element of x is nan).  The result
was a wrong, finite value.
---
 src/unwrap/unwrap_gufunc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..99a1dc8 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,8 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    // q can be too big for an integer type, and it can be nan.
+    T q = static_cast<T>(std::trunc(delta/period + std::copysign(0.5, delta)));
     return x1 - q * period;
 }
 
-- 
2.43.0


From e2fb008e7cab110f79ee5426d38cb92644471d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:51 +0000
Subject: [PATCH 06/24] fix: expint1: don't convert nan to int

With x = nan, none of the conditions in expint1() held, and expint1_t()
converted 80/x to int, which is undefined.
---
 src/expint1/expint1.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expint1/expint1.h b/src/expint1/expint1.h
index 8c11532..7dc32e4 100644
--- a/src/expint1/expint1.h
+++ b/src/expint1/expint1.h
@@ -72,6 +72,9 @@ static T expint1_t(T x)
 template<typename T>
 T expint1(T x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x < 0.0) {
         return std::numeric_limits<T>::quiet_NaN();
     }
-- 
2.43.0


From 6d0282121ac625f276e672d1a5e7f1e88ce42fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:14 +0000
Subject: [PATCH 07/24] fix: sosfilter: raise MemoryError when the state can't
 be allocated

The result of calloc() was used without checking it.
---
 src/sosfilter/sosfilter_gufunc.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..28fc38e 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -141,9 +141,14 @@ static void sosfilter_core(
 {
     npy_intp zi_strides[2];
 
-    // XXX FIXME: Check the return value of calloc for NULL.
-    // What to do if calloc() fails?
-    T *zi = (T *) calloc(m*2, sizeof(T));
+    T *zi = (T *) calloc(m > 0 ? m*2 : 1, sizeof(T));
+    if (zi == NULL) {
+        NPY_ALLOW_C_API_DEF
+        NPY_ALLOW_C_API
+        PyErr_NoMemory();
+        NPY_DISABLE_C_API
+        return;
+    }
     zi_strides[0] = 2*sizeof(T);
     zi_strides[1] = sizeof(T);
     if (sos_strides[0] == 6*sizeof(T) && sos_strides[1] == sizeof(T)
-- 
2.43.0


From 5539338e4b6031b2a7d123385f3d87022581a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:15 +0000
Subject: [PATCH 08/24] fix: sosfilter: write the output when there are no
 sections

With sos.shape == (0, 6), the output elements were never written.  The
output of a filter that has no sections is its input.
---
 src/sosfilter/sosfilter_gufunc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 28fc38e..212b430 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -44,7 +44,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi + get2d(p_zf, zf_strides, k, 0);
-                p_y[i] = yi;
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -57,6 +56,7 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            p_y[i] = xi;
         }
     }
     else {
@@ -66,7 +66,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi +get2d(p_zf, zf_strides, k, 0);
-                set(p_y, y_stride, i, yi);
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -79,6 +78,7 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            set(p_y, y_stride, i, xi);
         }
     }
 }
@@ -114,7 +114,6 @@ static void sosfilter_ic_contig_core(
 
             // y[i] = sos[k, 0]*xi + zf[k, 0];
             T yi = (*(p_sos + 6*k))*xi + (*(p_zf + 2*k));
-            p_y[i] = yi;
 
             // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
             *(p_zf + 2*k) = (*(p_zf + 2*k + 1)) + (*(p_sos + 6*k + 1))*xi - (*(p_sos + 6*k + 4))*yi;
@@ -124,6 +123,7 @@ static void sosfilter_ic_contig_core(
 
             xi = yi;
         }
+        p_y[i] = xi;
     }
 }
 
-- 
2.43.0


From 21655f4a4a8783efc3864c3af01e199bbbed1368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:00 +0000
Subject: [PATCH 09/24] fix: percentileofscore: write the output when kind is
 not valid

The output was left uninitialized, and values of kind that do not fit
in an int were truncated (so 2**32 was treated like KIND_RANK).
---
 src/percentileofscore/percentileofscore_gufunc.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..0c60162 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -64,7 +64,7 @@ percentileofscore_core_calc(
 
     count(n, p_x, x_stride, *p_score, &nless, &nequal, &ngreater);
 
-    switch (static_cast<int>(*p_kind)) {
+    switch (*p_kind) {
         case RANK:
             sum = 2*nless + nequal;
             if (nequal > 0) {
@@ -81,6 +81,10 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            // Not a valid value of `kind`.
+            *p_out = NPY_NAN;
+            return;
     }
 }
 
-- 
2.43.0


From da30d669ccedeca86353e9bd3491fbe682a3abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:35 +0000
Subject: [PATCH 10/24] fix: ordered: don't crash when op is not a comparison
 operator

With an object array, the unchecked value of op was passed to
PyObject_RichCompareBool(), which uses it as an index.  With a numerical
array, a value that is not valid was handled as if it were op.GE.
---
 src/ordered/ordered_gufunc.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..31e3cc8 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -115,9 +115,13 @@ static void ordered_core(
         else if (op == GT) {
             *p_out = check_ordered<T, GT>(n, p_x, x_stride);
         }
-        else {
+        else if (op == GE) {
             *p_out = check_ordered<T, GE>(n, p_x, x_stride);
         }
+        else {
+            // Not a valid comparison operator.
+            *p_out = false;
+        }
     }
 }
 
@@ -132,6 +136,12 @@ static void ordered_core_object(
     int op = *p_op;
     *p_out = true;
     if (n > 1) {
+        if (op < Py_LT || op > Py_GE) {
+            // Not a valid comparison operator.  It must not be passed to
+            // PyObject_RichCompareBool().
+            *p_out = false;
+            return;
+        }
         PyObject *x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             PyObject *x2 = get(p_x, x_stride, k);
-- 
2.43.0


From 99cda6145a4cfc6fceedce3e82a79045445cfba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:35 +0000
Subject: [PATCH 11/24] fix: ordered: an array that contains nan is not ordered

The numerical loops tested the negation of the comparison, so any array
was increasing and decreasing at a nan.  The loop for objects is already
right.
---
 src/ordered/ordered_gufunc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 31e3cc8..53905b1 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -29,7 +29,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 >= x2) {
+            if (!(x1 < x2)) {
                 return false;
             }
             x1 = x2;
@@ -39,7 +39,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 > x2) {
+            if (!(x1 <= x2)) {
                 return false;
             }
             x1 = x2;
@@ -69,7 +69,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 <= x2) {
+            if (!(x1 > x2)) {
                 return false;
             }
             x1 = x2;
@@ -80,7 +80,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 < x2) {
+            if (!(x1 >= x2)) {
                 return false;
             }
             x1 = x2;
-- 
2.43.0


From 13edba0fabafe227301df7556fb5677bd455a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:35 +0000
Subject: [PATCH 12/24] fix: release the objects that the object loops
 overwrite in out

When the out parameter is an object array, its elements hold references.
The object loops of cross2, cross3, first, minmax, min_argmin,
max_argmax and peaktopeak replaced the elements without releasing them.
---
 src/cross/cross_gufunc.h               | 8 ++++----
 src/first/first_gufunc.h               | 5 ++---
 src/minmax/minmax_gufunc.h             | 8 ++++----
 src/peaktopeak/peaktopeak_gufunc.c.src | 2 +-
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..2c9b393 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -106,9 +106,9 @@ cross3_core_calc_object(
         return;
     }
 
-    set(p_out, out_stride, 0, out0);
-    set(p_out, out_stride, 1, out1);
-    set(p_out, out_stride, 2, out2);
+    Py_XSETREF(*p_out, out0);
+    Py_XSETREF(*(PyObject **) ((char *) p_out + out_stride), out1);
+    Py_XSETREF(*(PyObject **) ((char *) p_out + 2*out_stride), out2);
 }
 
 //
@@ -156,7 +156,7 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
-    p_out[0] = out;
+    Py_XSETREF(*p_out, out);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..a9f03b1 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -162,8 +162,7 @@ first_core_calc_object(
             int cmp = PyObject_RichCompareBool(x, target, py_op);
             if (cmp == -1) {
                 // Error occurred in PyObject_RichCompareBool().
-                result = NULL;
-                break;
+                return;
             }
             if (cmp == 1) {
                 result = x;
@@ -172,7 +171,7 @@ first_core_calc_object(
         }
     }
     Py_XINCREF(result);
-    *p_out = result;
+    Py_XSETREF(*p_out, result);
 }
 
 
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..5a2df0d 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -68,8 +68,8 @@ static void minmax_object_core(
     }
     Py_INCREF(xmin);
     Py_INCREF(xmax);
-    *p_out = xmin;
-    set(p_out, out_stride, 1, xmax);
+    Py_XSETREF(*p_out, xmin);
+    Py_XSETREF(*(PyObject **) ((char *) p_out + out_stride), xmax);
 }
 
 
@@ -283,7 +283,7 @@ static void min_argmin_object_core(
         }
     }
     Py_INCREF(xmin);
-    *p_out1 = xmin;
+    Py_XSETREF(*p_out1, xmin);
     *p_out2 = xmin_index;
 }
 
@@ -334,7 +334,7 @@ static void max_argmax_object_core(
         }
     }
     Py_INCREF(xmax);
-    *p_out1 = xmax;
+    Py_XSETREF(*p_out1, xmax);
     *p_out2 = xmax_index;
 }
 
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..2bb6bc3 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -227,7 +227,7 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         if (diff == NULL) {
             return;
         }
-        *((PyObject **) out) = diff;
+        Py_XSETREF(*((PyObject **) out), diff);
     }
 }
 
-- 
2.43.0


From 9a4fd19ca46892eeb3a434deaea1b0b1f36c4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:15 +0000
Subject: [PATCH 13/24] fix: use npy_intp for the counters of loops over array
 dimensions

An int overflows when a dimension has more than 2**31 - 1 elements.
---
 src/gendot/gendotmodule.c                        | 10 +++++-----
 src/issnan/issnan_ufunc.c.src                    |  2 +-
 src/linear_interp1d/linear_interp1d_gufunc.c.src |  6 +++---
 src/tri_area/tri_area_gufunc.h                   |  2 +-
 src/vnorm/vnorm_gufunc.h                         |  8 ++++----
 tools/cxxgen/generate_ufunc_extmod.py            |  2 +-
 tools/cxxgen/gufuncgen.py                        |  2 +-
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..256ccbb 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -71,7 +71,7 @@ reduce(PyUFuncGenericFunction *loop_function, void *loop_data,
     loop_steps[0] = stride;
     loop_steps[1] = stride;
     loop_steps[2] = stride;
-    for (int k = 1; k < n; ++k, data += stride) {
+    for (npy_intp k = 1; k < n; ++k, data += stride) {
         loop_args[1] = data;
         ((PyUFuncGenericFunction)loop_function)(loop_args, loop_dimensions, loop_steps, loop_data);
     }
@@ -105,7 +105,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
-            for (int j = 0; j < nloops; ++j, pout += steps[2]) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
                 memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
             }
             return;
@@ -153,7 +153,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     if (SUMFUNC_NIN(data) == 2) {
         // sumfunc is an element-wise ufunc with 2 inputs and 1 output.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -175,7 +175,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -305,7 +305,7 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
     strcpy(gendot_name, name);
     strcpy(gendot_doc, doc);
 
-    for (int i = 0; i < nloops; ++i) {
+    for (npy_intp i = 0; i < nloops; ++i) {
         gendot_funcs[i] = (PyUFuncGenericFunction) &gendot_loop;
 
         npy_intp prod_index = func_index_pairs[i].prod_index;
diff --git a/src/issnan/issnan_ufunc.c.src b/src/issnan/issnan_ufunc.c.src
index ca75ae8..5c42b6d 100644
--- a/src/issnan/issnan_ufunc.c.src
+++ b/src/issnan/issnan_ufunc.c.src
@@ -87,7 +87,7 @@ static void issnan_@typename@_loop(char **args, const npy_intp *dimensions,
     char *pout = args[1];
     npy_intp n = dimensions[0];
 
-    for (int j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
+    for (npy_intp j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
         @ctype@ x = *((@ctype@ *) px);
         *((npy_bool *) pout) = issnan@suffix@(x);
     }
diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1328d03..e4d6c80 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -97,7 +97,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp, or if any of these values is NAN.
-            for (int j = 0; j < nloops; ++j, pout += out_stride) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
             return;
@@ -111,7 +111,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
             r = (x - xpk) / (xpk_next - xpk);
         }
 
-        for (int j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
+        for (npy_intp j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
             @ctype@ fpk = *((@ctype@ *) (pfp + k*fp_stride));
             if (x == xpk) {
                 *((@ctype@ *) pout) = fpk;
@@ -124,7 +124,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         return;
     }
 
-    for (int j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
+    for (npy_intp j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
                                      pout += out_stride) {
         if (n < 1) {
             *((@ctype@ *) pout) = NPY_NAN;
diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index af58cfd..cf9ed33 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -17,7 +17,7 @@ template<typename T>
 static T norm_diff(npy_intp n, T *p_p, const npy_intp p_strides[2], npy_intp i1, npy_intp i2)
 {
     T sumsq = 0.0;
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T x1 = get2d(p_p, p_strides, i1, k);
         T x2 = get2d(p_p, p_strides, i2, k);
         T dx = x2 - x1;
diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 659c797..567e8d8 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -75,7 +75,7 @@ static void vnorm_core_calc(
         return;
     }
 
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
         if (abs_x > maxabsx) {
@@ -87,7 +87,7 @@ static void vnorm_core_calc(
     }
     else {
         U sum = 0;
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T current_x = get(p_x, x_stride, k);
             U abs_x = my_abs(current_x);
             if (isinf(order)) {
@@ -208,12 +208,12 @@ static void vdot_core_calc(
     T sum = 0;
     if (x_stride == sizeof(T) && y_stride == sizeof(T)) {
         // Give the compiler a chance to optimize the contiguous case.
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             sum += p_x[k] * p_y[k];
         }
     }
     else {
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T xk = get(p_x, x_stride, k);
             T yk = get(p_y, y_stride, k);
             sum += xk * yk;
diff --git a/tools/cxxgen/generate_ufunc_extmod.py b/tools/cxxgen/generate_ufunc_extmod.py
index 83df409..3e86360 100644
--- a/tools/cxxgen/generate_ufunc_extmod.py
+++ b/tools/cxxgen/generate_ufunc_extmod.py
@@ -222,7 +222,7 @@ def generate_ufunc_extmod(cxxgenpath, extmod, destdir):
                         print(f'    char *px{k} = args[{k}];', file=f)
                     print(f'    char *pout = args[{k+1}];', file=f)
                     print('    npy_intp n = dimensions[0];', file=f)
-                    print('    for (int j = 0; j < n; ++j,', file=f)
+                    print('    for (npy_intp j = 0; j < n; ++j,', file=f)
                     for k in range(nin):
                         print(' '*26, f'px{k} += steps[{k}],', file=f)
                     print(' '*26, f'pout += steps[{k+1}]) {{', file=f)
diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..15dc084 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -312,7 +312,7 @@ def generate_concrete_loop(name, corename, varnames,
         text.append('\n'.join(dim_asserts))
 
     text.append('')
-    text.append('    for (int j = 0; j < nloops; ++j, ')
+    text.append('    for (npy_intp j = 0; j < nloops; ++j, ')
     for k, varname in enumerate(varnames):
         line = []
         line.append(' '*32)
-- 
2.43.0


From 969e35e375295feeba5abed5e335e65c8731d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:38 +0000
Subject: [PATCH 14/24] fix: gendot: allocate the intermediate array with
 prodfunc's item size

The array that holds the output of prodfunc was allocated with the size
of the items of sumfunc's output, so it overflowed when that type is
smaller (e.g. gendot(np.multiply, all_same)).  An element-wise sumfunc
must also be closed: its output is fed back as its first input, so
e.g. np.less can't be applied to the type double.
---
 src/gendot/gendotmodule.c | 22 +++++++++++++++-------
 ufunclab/_gendot_wrap.py  | 11 +++++++++--
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 256ccbb..1eedb00 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -17,7 +17,8 @@ typedef struct gendot_data_t {
     void *prodfunc_loop_data;
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
-    npy_intp sumfunc_loop_itemsize;
+    npy_intp prodfunc_loop_itemsize;  // Item size of the output of prodfunc.
+    npy_intp sumfunc_loop_itemsize;   // Item size of the output of sumfunc.
     npy_intp sumfunc_nin;
     npy_intp sumfunc_has_identity; // actual values are only 0 or 1.
     // sumfunc_identity_buffer is large enough to hold an instance
@@ -29,6 +30,7 @@ typedef struct gendot_data_t {
 #define PRODFUNC_LOOP_DATA(p)       (((gendot_data_t *)(p))->prodfunc_loop_data)
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
+#define PRODFUNC_LOOP_ITEMSIZE(p)   (((gendot_data_t *)(p))->prodfunc_loop_itemsize)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
 #define SUMFUNC_NIN(p)              (((gendot_data_t *)(p))->sumfunc_nin)
 #define SUMFUNC_HAS_IDENTITY(p)     (((gendot_data_t *)(p))->sumfunc_has_identity)
@@ -99,14 +101,16 @@ gendot_loop(char **args, const npy_intp *dimensions,
     npy_intp prodfunc_dimensions[3];
     npy_intp prodfunc_steps[3];
 
-    size_t itemsize = SUMFUNC_LOOP_ITEMSIZE(data);
+    // Size of each item in tmp, the output of prodfunc.
+    npy_intp itemsize = PRODFUNC_LOOP_ITEMSIZE(data);
 
     if (dimensions[1] == 0) {
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
             for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
-                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
+                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data),
+                       SUMFUNC_LOOP_ITEMSIZE(data));
             }
             return;
         }
@@ -127,9 +131,10 @@ gendot_loop(char **args, const npy_intp *dimensions,
         NPY_ALLOW_C_API_DEF
         NPY_ALLOW_C_API
             PyErr_Format(PyExc_MemoryError,
-                "Unable to allocate %ld bytes (%ld items, each with size %ld) "
+                "Unable to allocate %zd bytes (%zd items, each with size %zd) "
                 "for intermediate calculation",
-                dimensions[1] * itemsize, dimensions[1], itemsize);
+                (Py_ssize_t) (dimensions[1] * itemsize),
+                (Py_ssize_t) dimensions[1], (Py_ssize_t) itemsize);
         NPY_DISABLE_C_API
         return;
     }
@@ -236,6 +241,8 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
             (func_index_pair *) PyArray_DATA((PyArrayObject *)loop_indices);
 
     npy_intp nloops = PyArray_DIMS((PyArrayObject *)loop_indices)[0];
+    // itemsizes is an array with shape (nloops, 2).  The columns are the sizes
+    // of the outputs of prodfunc and sumfunc.
     npy_intp *gendot_itemsizes = PyArray_DATA((PyArrayObject *)itemsizes);
 
     uint8_t *sumfunc_identity_data =
@@ -315,11 +322,12 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
-        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
+        gendot_data[i].prodfunc_loop_itemsize = gendot_itemsizes[2*i];
+        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[2*i + 1];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
                sumfunc_identity_data + 32*i,  // FIXME: hard-coded constant 32 :(
-               gendot_itemsizes[i]);
+               gendot_itemsizes[2*i + 1]);
 
         gendot_data_ptrs[i] = &gendot_data[i];
     }
diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..44a7474 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -167,13 +167,20 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
             continue
         prod_outtype = prod_type.replace(' ', '')[-1]
         for j, sum_type in enumerate(sumfunc.types):
-            sum_intype = sum_type.replace(' ', '').split('->')[0]
+            sum_intype, sum_outtype = sum_type.replace(' ', '').split('->')
+            if sumfunc.signature is None and sum_outtype != prod_outtype:
+                # An element-wise ufunc can only be used for the reduction
+                # if its output can be fed back as its first input.
+                continue
             if sum_intype == sumfunc.nin*prod_outtype:
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
     typechars = [prod_type[:2] + sum_type[-1]
                  for prod_type, sum_type in dot_types]
-    itemsizes = np.array([np.dtype(c[-1]).itemsize for c in typechars],
+    # The sizes of the outputs of prodfunc and sumfunc.
+    itemsizes = np.array([[np.dtype(prod_type[-1]).itemsize,
+                           np.dtype(sum_type[-1]).itemsize]
+                          for prod_type, sum_type in dot_types],
                          dtype=np.intp)  # Actually, np.uint8 would be OK.
 
     typecodes = np.array([[reverse_typedict[np.dtype(c).type] for c in chars]
-- 
2.43.0


From e34b7c29c92262164c5e82ffbdea5d02d1761243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:11 +0000
Subject: [PATCH 15/24] fix: bincount: accumulate in an out array of any type

When out did not have the type of the inner loop (like the int32 array in
the docstring), was byte-swapped or was not aligned, the counts were added
to uninitialized memory.
---
 ufunclab/_wrapped.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..514731a 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -44,6 +44,20 @@ def bad_integer_error(name, value):
     return ValueError(f"{name} must be an integer; got {value!r}")
 
 
+def _accumulate(gufunc, arrays, out, axes):
+    # The inner loops of `gufunc` accumulate in `out`.  This does not work when
+    # NumPy has to pass a temporary array to the inner loop because `out` does
+    # not have the type used by the loop, is byte-swapped or is not aligned:
+    # NumPy does not copy the contents of `out` to the temporary array.
+    dtype = gufunc.resolve_dtypes((*[a.dtype for a in arrays], None))[-1]
+    if out.dtype == dtype and out.dtype.isnative and out.flags.aligned:
+        return gufunc(*arrays, out=out, axes=axes)
+    result = out.astype(dtype)
+    gufunc(*arrays, out=result, axes=axes)
+    np.copyto(out, result, casting='same_kind')
+    return out
+
+
 def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     """
     Count the number of occurrences of the positive integers in the 1-d
@@ -185,7 +199,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=weights.dtype)
 
-        return _bincountw(x, weights, out=out, axes=[axis, axis, axis])
+        return _accumulate(_bincountw, (x, weights), out, [axis, axis, axis])
     else:
         x_shape = x.shape
         adjusted_axis = _normalize_axis(x.ndim, axis)
@@ -199,7 +213,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=np.intp)
 
-        return _bincount(x, out=out, axes=[axis, axis])
+        return _accumulate(_bincount, (x,), out, [axis, axis])
 
 
 bincount._bincount = _bincount
-- 
2.43.0


From 04b87957723460026cd922106cce3c26342872a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:11 +0000
Subject: [PATCH 16/24] fix: gendot: keep prodfunc and sumfunc alive

The gufunc uses the loop functions of prodfunc and sumfunc but did not
hold references to them.
---
 src/gendot/gendotmodule.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 1eedb00..f9e963f 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -353,6 +353,14 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
     }
     // This memory is freed in the gufunc's dealloc method.
     gufunc->ptr = mem;
+    // The gufunc calls the loop functions of prodfunc and sumfunc, so these
+    // must live at least as long as the gufunc.  This reference is released
+    // in the gufunc's dealloc method.
+    gufunc->obj = Py_BuildValue("(OO)", prodfunc, sumfunc);
+    if (gufunc->obj == NULL) {
+        Py_DECREF(gufunc);
+        return NULL;
+    }
     return (PyObject *) gufunc;
 }
 
-- 
2.43.0


From 88fd1ec9f2593ffb010e5128d2acf8937587a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:43 +0000
Subject: [PATCH 17/24] fix: erfcx: return nan before converting it to int

---
 src/normal/erfcx_funcs.cxx        | 9 +++++++++
 src/normal/generate_erfcx_code.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/normal/erfcx_funcs.cxx b/src/normal/erfcx_funcs.cxx
index b544cf7..af3f91f 100644
--- a/src/normal/erfcx_funcs.cxx
+++ b/src/normal/erfcx_funcs.cxx
@@ -634,6 +634,9 @@ erfcx_y100(float y100)
 float
 erfcx(float x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0f) {
         if (x > 5.0f) {
             // Use the truncated continued fraction expansion.
@@ -1576,6 +1579,9 @@ erfcx_y100(double y100)
 double
 erfcx(double x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0) {
         if (x > 50.0) {
             // Use the truncated continued fraction expansion.
@@ -2618,6 +2624,9 @@ erfcx_y100(long double y100)
 long double
 erfcx(long double x)
 {
+    if (std::isnan(x)) {
+        return x;
+    }
     if (x > 0.0L) {
         if (x > 100.0L) {
             // Use the truncated continued fraction expansion.
diff --git a/src/normal/generate_erfcx_code.py b/src/normal/generate_erfcx_code.py
index 23de116..e1c39fa 100644
--- a/src/normal/generate_erfcx_code.py
+++ b/src/normal/generate_erfcx_code.py
@@ -121,6 +121,9 @@ _erfcx_body = """
 {type_str}
 erfcx({type_str} x)
 {{
+    if (std::isnan(x)) {{
+        return x;
+    }}
     if (x > 0.0{sfx}) {{
         if (x > {cfbound}{sfx}) {{
             // Use the truncated continued fraction expansion.
-- 
2.43.0


From 73739d5dfa0d5d1760a04cd0bb85d53b1d4beaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 18/24] fix: pmean, pmeanw: use powl for long double

---
 src/means/means_gufunc.c.src | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 149457a..7bda230 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -35,6 +35,7 @@
  * #ctype_in      = float, double, long double#
  * #ctype_out     = float, double, long double#
  * #funcsuffix    = f, , l#
+ * #powfunc       = pow, pow, powl#
  */
 
 @ctype_out@ gmean_@typename@_1d(char *arg, const npy_intp n, const npy_intp step)
@@ -413,9 +414,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_out@ scale = (p > 0) ? xmax : xmin;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
-            sum += pow(x/scale, p);
+            sum += @powfunc@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/dimensions[1], 1/p);
+        *(@ctype_out@ *) out = scale*@powfunc@(sum/dimensions[1], 1/p);
     }
 }
 
@@ -562,9 +563,9 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             @ctype_in@ x = *(@ctype_in@ *) inner0;
             @ctype_in@ w = *(@ctype_in@ *) inner1;
             sumw += w;
-            sum += w*pow(x/scale, p);
+            sum += w*@powfunc@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/sumw, 1/p);
+        *(@ctype_out@ *) out = scale*@powfunc@(sum/sumw, 1/p);
     }
 }
 
-- 
2.43.0


From 14a0d914a03681518f083545b7c41c638c500a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:58 +0000
Subject: [PATCH 19/24] fix: stop an object loop at the first exception

The loops generated for object dtypes went on with the next row after an
operation had raised an exception.  The operations of that row then ran with
an exception set, so the caller got a SystemError instead of the exception.
---
 tools/cxxgen/gufuncgen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index 15dc084..217aa51 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,12 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if 'PyObject *' in var_ctypes:
+        # An operation on the objects might have raised an exception.
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
+
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From 1411e5c737100cdf10edb172d432efc288c0274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:36 +0000
Subject: [PATCH 20/24] fix: bincount: compute the default length with a Python
 integer

np.max(x) + 1 was computed in the dtype of x, so for example
bincount(np.array([255], dtype=np.uint8)) had length 0.
---
 ufunclab/_wrapped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 514731a..2f5c6be 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -175,7 +175,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From d543f2527975373f53897268d869cdb84ee0a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 21/24] fix: mad: do not compute the square of the array length
 as an integer

n*n overflows when the core dimension is larger than 3037000499.
---
 src/mad/mad_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mad/mad_gufunc.h b/src/mad/mad_gufunc.h
index 25e975b..5029e44 100644
--- a/src/mad/mad_gufunc.h
+++ b/src/mad/mad_gufunc.h
@@ -91,7 +91,7 @@ static void mad_core(
         *p_out = 2*sum/n/(n-1);
     }
     else {
-        *p_out = 2*sum/(n*n);
+        *p_out = 2*sum/n/n;
     }
 }
 
-- 
2.43.0


From 0acf488bcab88007f0d411be3f62838840feb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 22/24] fix: ordered: compare each object with its predecessor

The object loop compared each element with the first one.
---
 src/ordered/ordered_gufunc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 53905b1..cae8063 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -153,6 +153,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From bfcfdce324c14bca0001038ed571aefac557e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 23/24] fix: pmean and pmeanw with tiny nonzero p when x
 contains 0 or inf

The approximation for small p multiplies the geometric mean by a
correction that is computed from log(x).  If x contained 0 or inf, the
result was nan (e.g. pmean([0, 1], 1e-7)).  Use the general formula in
that case.
---
 src/means/means_gufunc.c.src | 74 ++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 7bda230..0d278d1 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -333,22 +333,26 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         if (fabs@funcsuffix@(p) < 2e-6) {
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmean_@typename@_1d(in0, dimensions[1], inner_step);
-            if (p != 0) {
-                npy_intp n = dimensions[1];
-                @ctype_out@ sumlnx = 0;
-                @ctype_out@ sumlnx_sq = 0;
-                inner = in0;
-                for (npy_intp k = 0; k < n; ++k, inner += inner_step) {
-                    @ctype_in@ x = *(@ctype_in@ *)inner;
-                    @ctype_out@ lnx = log@funcsuffix@(x);
-                    sumlnx += lnx;
-                    sumlnx_sq += lnx*lnx;
+            // The approximation uses log(x), so if x contains 0 or inf (i.e. if
+            // gm is 0 or inf), the general formula below is used.
+            if (p == 0 || (gm != 0 && !isinf(gm))) {
+                if (p != 0) {
+                    npy_intp n = dimensions[1];
+                    @ctype_out@ sumlnx = 0;
+                    @ctype_out@ sumlnx_sq = 0;
+                    inner = in0;
+                    for (npy_intp k = 0; k < n; ++k, inner += inner_step) {
+                        @ctype_in@ x = *(@ctype_in@ *)inner;
+                        @ctype_out@ lnx = log@funcsuffix@(x);
+                        sumlnx += lnx;
+                        sumlnx_sq += lnx*lnx;
+                    }
+                    @ctype_out@ mean_sumlnx = sumlnx/n;
+                    gm *= 1 + 0.5*p*(sumlnx_sq/n - mean_sumlnx*mean_sumlnx);
                 }
-                @ctype_out@ mean_sumlnx = sumlnx/n;
-                gm *= 1 + 0.5*p*(sumlnx_sq/n - mean_sumlnx*mean_sumlnx);
+                *(@ctype_out@ *) out = gm;
+                continue;
             }
-            *(@ctype_out@ *) out = gm;
-            continue;
         }
         else if (p == -1) {
             // p == -1 is the harmonic mean.
@@ -472,27 +476,31 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmeanw_@typename@_1d(in0, in1, dimensions[1],
                                                   inner0_step, inner1_step);
-            if (p != 0) {
-                npy_intp n = dimensions[1];
-                @ctype_out@ sumlnx = 0;
-                @ctype_out@ sumlnx_sq = 0;
-                inner0 = in0;
-                inner1 = in1;
-                sumw = 0;
-                for (npy_intp k = 0; k < n; ++k, inner0 += inner0_step,
-                                                 inner1 += inner1_step) {
-                    @ctype_in@ x = *(@ctype_in@ *) inner0;
-                    @ctype_in@ w = *(@ctype_in@ *) inner1;
-                    @ctype_out@ lnx = log@funcsuffix@(x);
-                    sumw += w;
-                    sumlnx += w*lnx;
-                    sumlnx_sq += w*lnx*lnx;
+            // The approximation uses log(x), so if x contains 0 or inf (i.e. if
+            // gm is 0 or inf), the general formula below is used.
+            if (p == 0 || (gm != 0 && !isinf(gm))) {
+                if (p != 0) {
+                    npy_intp n = dimensions[1];
+                    @ctype_out@ sumlnx = 0;
+                    @ctype_out@ sumlnx_sq = 0;
+                    inner0 = in0;
+                    inner1 = in1;
+                    sumw = 0;
+                    for (npy_intp k = 0; k < n; ++k, inner0 += inner0_step,
+                                                     inner1 += inner1_step) {
+                        @ctype_in@ x = *(@ctype_in@ *) inner0;
+                        @ctype_in@ w = *(@ctype_in@ *) inner1;
+                        @ctype_out@ lnx = log@funcsuffix@(x);
+                        sumw += w;
+                        sumlnx += w*lnx;
+                        sumlnx_sq += w*lnx*lnx;
+                    }
+                    @ctype_out@ mean_sumlnx = sumlnx/sumw;
+                    gm *= 1 + 0.5*p*(sumlnx_sq/sumw - mean_sumlnx*mean_sumlnx);
                 }
-                @ctype_out@ mean_sumlnx = sumlnx/sumw;
-                gm *= 1 + 0.5*p*(sumlnx_sq/sumw - mean_sumlnx*mean_sumlnx);
+                *(@ctype_out@ *) out = gm;
+                continue;
             }
-            *(@ctype_out@ *) out = gm;
-            continue;
         }
         else if (p == -1) {
             // p == -1 is the harmonic mean.
-- 
2.43.0


From bf044b3cad5c0c9f49adf23ac7c5de8bb38fd5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:21 +0000
Subject: [PATCH 24/24] fix: tri_area and tri_area_indexed returned nan for
 some degenerate triangles

For points on a line, the factor c - (a - b) of Heron's formula is 0, but
rounding errors can make it negative, so the square root was nan.
---
 src/tri_area/tri_area_gufunc.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index cf9ed33..987c4e7 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -71,6 +71,11 @@ tri_area_common_calc(
     //
     T f1 = a + (b + c);
     T f2 = (c - (a - b));
+    if (f2 < 0) {
+        // f2 is nonnegative (by the triangle inequality), except for rounding
+        // errors when the triangle is (nearly) degenerate.
+        f2 = 0;
+    }
     T f3 = (c + (a - b));
     T f4 = (a + (b - c));
     *p_out = std::sqrt(f1*f2*f3*f4)/4;
-- 
2.43.0

