From f19eb0de7d155fc430e07fb4057be4ad56a26da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 01/88] fix: osl_int_add and osl_int_add_si miss overflows
 involving the smallest integer

-val2 (or -i) wraps when it is the smallest integer, so the check passed and
the sum wrapped silently.
---
 source/int.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/int.c b/source/int.c
index 24c3773..a319fb6 100644
--- a/source/int.c
+++ b/source/int.c
@@ -762,7 +762,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LONG_MAX - val1.sp < val2.sp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.sp - LONG_MIN < -val2.sp)
+        if (LONG_MIN - val1.sp > val2.sp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -775,7 +775,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - val1.dp < val2.dp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.dp - LLONG_MIN < -val2.dp)
+        if (LLONG_MIN - val1.dp > val2.dp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -809,7 +809,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LONG_MAX - value.sp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.sp - LONG_MIN < -i)
+        if (LONG_MIN - value.sp > i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
@@ -822,7 +822,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - value.dp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.dp - LLONG_MIN < -i)
+        if (LLONG_MIN - value.dp > i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
-- 
2.43.0


From b5582199d9cc896dd88b50d1920020b61978e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 02/88] fix: detect overflow in osl_int_sub, osl_int_oppose and
 osl_int_abs

The opposite of the smallest integer does not fit: oppose and abs returned a
wrapped value, and sub added it, so x - MIN wrapped silently.
---
 source/int.c | 51 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/source/int.c b/source/int.c
index a319fb6..59e33ef 100644
--- a/source/int.c
+++ b/source/int.c
@@ -853,16 +853,33 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_sub(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
+  switch (precision) {
+    case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (val2.sp > 0 ? val1.sp < LONG_MIN + val2.sp
+                      : val1.sp > LONG_MAX + val2.sp)
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->sp = val1.sp - val2.sp;
+      break;
+
+    case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (val2.dp > 0 ? val1.dp < LLONG_MIN + val2.dp
+                      : val1.dp > LLONG_MAX + val2.dp)
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->dp = val1.dp - val2.dp;
+      break;
+
 #ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    mpz_sub(*variable->mp, *val1.mp, *val2.mp);
-  } else
-#endif
-  {
-    osl_int_t mval2;
-    osl_int_init(precision, &mval2);
-    osl_int_oppose(precision, &mval2, val2);
-    osl_int_add(precision, variable, val1, mval2);
+    case OSL_PRECISION_MP:
+      mpz_sub(*variable->mp, *val1.mp, *val2.mp);
+      break;
+#endif
+
+    default:
+      OSL_error("unknown precision");
   }
 }
 
@@ -1204,10 +1221,18 @@ void osl_int_oppose(const int precision, osl_int_t* const variable,
                     const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->sp = -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->dp = -value.dp;
       break;
 
@@ -1232,10 +1257,18 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
                  const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->sp = (value.sp > 0) ? value.sp : -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->dp = (value.dp > 0) ? value.dp : -value.dp;
       break;
 
-- 
2.43.0


From c5891e25b5f7af439d69e061fe4092006a11b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 03/88] fix: osl_int_mul and osl_int_mul_si overflow detection

The check divided the already overflowed product, which is undefined: with
optimisation the compiler removes the check (0x4000000000000001 * 4 gave 4),
and MIN * -1 trapped in the division.
---
 source/int.c | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/source/int.c b/source/int.c
index 59e33ef..9fcdd3c 100644
--- a/source/int.c
+++ b/source/int.c
@@ -894,25 +894,19 @@ void osl_int_mul(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = val1.sp * val2.sp;
+      if (__builtin_mul_overflow(val1.sp, val2.sp, &variable->sp)) {
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->sp / val2.sp != val1.sp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      }
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = val1.dp * val2.dp;
+      if (__builtin_mul_overflow(val1.dp, val2.dp, &variable->dp)) {
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->dp / val2.dp != val1.dp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      }
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -937,25 +931,19 @@ void osl_int_mul_si(const int precision, osl_int_t* const variable,
                     const osl_int_t value, const int i) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = value.sp * (long int)i;
+      if (__builtin_mul_overflow(value.sp, (long int)i, &variable->sp)) {
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->sp / (long int)i != value.sp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      }
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = value.dp * (long long int)i;
+      if (__builtin_mul_overflow(value.dp, (long long int)i, &variable->dp)) {
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->dp / (long long int)i != value.dp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      }
       break;
 
 #ifdef OSL_GMP_IS_HERE
-- 
2.43.0


From 41c62048cbf37ec51780a4875e5877b416f60ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 04/88] fix: divisions of the smallest integer by -1

Dividing (or taking the remainder of) the smallest integer by -1 trapped; the
floor remainder overflowed while multiplying back; the gcd of the smallest
integer with 0 or itself was negative.
---
 source/int.c | 52 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/source/int.c b/source/int.c
index 9fcdd3c..50bd7f8 100644
--- a/source/int.c
+++ b/source/int.c
@@ -969,10 +969,18 @@ void osl_int_div_exact(const int precision, osl_int_t* const q,
                        const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->sp = a.sp / b.sp;
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->dp = a.dp / b.dp;
       return;
 
@@ -998,6 +1006,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->sp = a.sp / b.sp;
       if (q->sp < 0) {
         if (a.sp % b.sp != 0)
@@ -1011,6 +1023,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->dp = a.dp / b.dp;
       if (q->dp < 0) {
         if (a.dp % b.dp != 0)
@@ -1045,13 +1061,15 @@ void osl_int_floor_div_r(const int precision, osl_int_t* const r,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      osl_int_floor_div_q(precision, r, a, b);
-      r->sp = a.sp - r->sp * b.sp;
+      r->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
+      if (r->sp != 0 && (r->sp < 0) != (b.sp < 0))
+        r->sp += b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      osl_int_floor_div_q(precision, r, a, b);
-      r->dp = a.dp - r->dp * b.dp;
+      r->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
+      if (r->dp != 0 && (r->dp < 0) != (b.dp < 0))
+        r->dp += b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1079,12 +1097,12 @@ void osl_int_floor_div_q_r(const int precision, osl_int_t* const q,
   switch (precision) {
     case OSL_PRECISION_SP:
       osl_int_floor_div_q(precision, q, a, b);
-      r->sp = a.sp - q->sp * b.sp;
+      osl_int_floor_div_r(precision, r, a, b);
       return;
 
     case OSL_PRECISION_DP:
       osl_int_floor_div_q(precision, q, a, b);
-      r->dp = a.dp - q->dp * b.dp;
+      osl_int_floor_div_r(precision, r, a, b);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1110,15 +1128,15 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      mod->sp = a.sp % b.sp;
+      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
       if (mod->sp < 0)
-        mod->sp += labs(b.sp);
+        mod->sp = (b.sp < 0) ? mod->sp - b.sp : mod->sp + b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      mod->dp = a.dp % b.dp;
+      mod->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
       if (mod->dp < 0)
-        mod->dp += llabs(b.dp);
+        mod->dp = (b.dp < 0) ? mod->dp - b.dp : mod->dp + b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1134,7 +1152,9 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
 
 // gcd (greatest common divisor) for long long int
 long long int llgcd(const long long int a, const long long int b) {
-  return (b ? llgcd(b, a % b) : a);
+  if (b == 0)
+    return a;
+  return (b == -1) ? 1 : llgcd(b, a % b);
 }
 
 /**
@@ -1148,11 +1168,13 @@ void osl_int_gcd(const int precision, osl_int_t* gcd, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      gcd->sp = labs(llgcd(a.sp, b.sp));
+      gcd->sp = llgcd(a.sp, b.sp);
+      osl_int_abs(precision, gcd, *gcd);
       return;
 
     case OSL_PRECISION_DP:
-      gcd->dp = llabs(llgcd(a.dp, b.dp));
+      gcd->dp = llgcd(a.dp, b.dp);
+      osl_int_abs(precision, gcd, *gcd);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1617,10 +1639,10 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
                       const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      return ((val1.sp % val2.sp) == 0);
+      return (val2.sp == -1 || (val1.sp % val2.sp) == 0);
 
     case OSL_PRECISION_DP:
-      return ((val1.dp % val2.dp) == 0);
+      return (val2.dp == -1 || (val1.dp % val2.dp) == 0);
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP:
-- 
2.43.0


From 8ff5dd463e60b6c7a86868ab0f1180d177a9b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 05/88] fix: osl_int_init_set_long and _long_long use an
 uninitialised GMP integer

---
 source/int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/int.c b/source/int.c
index 50bd7f8..a02a3df 100644
--- a/source/int.c
+++ b/source/int.c
@@ -491,7 +491,7 @@ void osl_int_init_set_long(const int precision, osl_int_t* const variable,
                            const long int i) {
 #ifdef OSL_GMP_IS_HERE
   if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
+    osl_int_init(precision, variable);
   }
 #endif
   osl_int_set_long(precision, variable, i);
@@ -507,7 +507,7 @@ void osl_int_init_set_long_long(const int precision, osl_int_t* const variable,
                                 const long long int i) {
 #ifdef OSL_GMP_IS_HERE
   if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
+    osl_int_init(precision, variable);
   }
 #endif
   osl_int_set_long_long(precision, variable, i);
-- 
2.43.0


From eed9dafa570d1c86ff686f3cbc38b39e6a3e42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 06/88] fix: size of the smallest integer (endless loop in base
 2) and of zero in base 10

llabs(LLONG_MIN) is undefined and stays negative, so the base 2 loop never
ended; zero has one digit in base 10, as it has with GMP.
---
 source/int.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/int.c b/source/int.c
index a02a3df..699bc57 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1297,10 +1297,8 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
 size_t lllog2(long long int x) {
   size_t n = 0;
 
-  x = llabs(x);
-
   while (x) {
-    x >>= 1;
+    x /= 2;
     ++n;
   }
 
@@ -1335,14 +1333,12 @@ size_t osl_int_size_in_base_2(const int precision, const osl_int_t value) {
 size_t lllog10(long long int x) {
   size_t n = 0;
 
-  x = llabs(x);
-
   while (x) {
     x /= 10;
     ++n;
   }
 
-  return n;
+  return ((n == 0) ? 1 : n);
 }
 
 /**
-- 
2.43.0


From f3e7ba906a71531a11716ab8e5b97ff8c67c1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 07/88] fix: osl_int_set_precision refuses values that fit both
 precisions

It went through an int, so any coefficient beyond 32 bits stopped the program.
---
 source/int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/int.c b/source/int.c
index 699bc57..cdaa049 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1663,8 +1663,8 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
 void osl_int_set_precision(const int precision, const int new_precision,
                            osl_int_t* const i) {
   if (i != NULL && precision != new_precision) {
-    int v = osl_int_get_si(precision, *i);  // TODO Fix to avoid overflow
+    long long int v = osl_int_get_long_long(precision, *i);
     osl_int_clear(precision, i);
-    osl_int_init_set_si(new_precision, i, v);
+    osl_int_init_set_long_long(new_precision, i, v);
   }
 }
-- 
2.43.0


From 5a53c5018ab4e0fed52f571ba3c0f1b37de2b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 08/88] fix: osl_int_sscanf and osl_int_sread

They returned (and moved by) the number of items instead of characters,
accepted the end of the text as a value, leaving the integer untouched, and
saturated silently on text beyond the precision.
---
 source/int.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/int.c b/source/int.c
index cdaa049..434bf7e 100644
--- a/source/int.c
+++ b/source/int.c
@@ -58,6 +58,7 @@
  *                                                                            *
  ******************************************************************************/
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -681,19 +682,26 @@ void osl_int_sprint_txt(char* const string, const int precision,
 int osl_int_sscanf(const char* const string, const int precision,
                    osl_int_t* const i) {
   int nb_read = 0;
+  int nb_char = 0;
+  char* end = NULL;
 
+  errno = 0;
   switch (precision) {
     case OSL_PRECISION_SP:
-      nb_read = sscanf(string, OSL_FMT_TXT_SP, &(i->sp));
+      i->sp = strtol(string, &end, 10);
+      nb_read = (end != string);
+      nb_char = (int)(end - string);
       break;
 
     case OSL_PRECISION_DP:
-      nb_read = sscanf(string, OSL_FMT_TXT_DP, &(i->dp));
+      i->dp = strtoll(string, &end, 10);
+      nb_read = (end != string);
+      nb_char = (int)(end - string);
       break;
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP: {
-      nb_read = gmp_sscanf(string, "%lZd", i->mp);
+      nb_read = gmp_sscanf(string, "%Zd%n", *i->mp, &nb_char);
       break;
     }
 #endif
@@ -702,11 +710,14 @@ int osl_int_sscanf(const char* const string, const int precision,
       OSL_error("unknown precision");
   }
 
-  if (nb_read == 0) {
+  if (nb_read != 1) {
     OSL_error("failed to read an integer");
   }
+  if (precision != OSL_PRECISION_MP && errno == ERANGE) {
+    OSL_overflow("osl_int_sscanf overflow");
+  }
 
-  return nb_read;
+  return nb_char;
 }
 
 /**
-- 
2.43.0


From 004514044077a29809130e6d78e98fdda227a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 09/88] fix: refuse replacement of relation rows at positions
 near INT_MAX

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 426343f..1952491 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2056,7 +2056,7 @@ void osl_relation_replace_constraints(osl_relation_t* r1,
 
   if ((r1 == NULL) || (r2 == NULL) || (r1->precision != r2->precision) ||
       (r1->nb_columns != r2->nb_columns) ||
-      ((row + r2->nb_rows) > r1->nb_rows) || (row < 0))
+      (row > r1->nb_rows - r2->nb_rows) || (row < 0))
     OSL_error("relation rows could not be replaced");
 
   for (i = 0; i < r2->nb_rows; i++)
-- 
2.43.0


From fdc065e4fd9e1115b37ddbb2782092d69ee05d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 10/88] fix: free the first part of a union when it is removed,
 as is done for the others

---
 source/relation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 1952491..4e99955 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2957,7 +2957,9 @@ void osl_relation_remove_part(osl_relation_t** relation_list,
   }
 
   if (*relation_list == part) {
-    *relation_list = (*relation_list)->next;
+    *relation_list = part->next;
+    part->next = NULL;
+    osl_relation_free(part);
     return;
   }
 
-- 
2.43.0


From e974ecac8f343d77d8a230f01b12ad79b49d7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 11/88] fix: array identifier of accesses holding the smallest
 int

---
 source/relation.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 4e99955..132abb7 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -59,6 +59,7 @@
  ******************************************************************************/
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -2624,6 +2625,7 @@ int osl_relation_get_array_id(const osl_relation_t* relation) {
   int nb_array_id;
   int row_id = 0;
   int precision;
+  long long id;
 
   if (relation == NULL)
     return OSL_UNDEFINED;
@@ -2675,13 +2677,14 @@ int osl_relation_get_array_id(const osl_relation_t* relation) {
       OSL_warning("rational array identifier");
       return OSL_UNDEFINED;
     }
-    array_id = -osl_int_get_si(precision,
-                               relation->m[row_id][relation->nb_columns - 1]);
-    array_id /= osl_int_get_si(precision, relation->m[row_id][1]);
-    if (array_id <= 0) {
-      OSL_warning("negative or 0 identifier in access function");
+    id = -(long long)osl_int_get_si(
+        precision, relation->m[row_id][relation->nb_columns - 1]);
+    id /= osl_int_get_si(precision, relation->m[row_id][1]);
+    if (id <= 0 || id > INT_MAX) {
+      OSL_warning("negative, 0 or too big identifier in access function");
       return OSL_UNDEFINED;
     }
+    array_id = (int)id;
 
     // Unions of accesses are allowed, but they should refer at the same array.
     if (first) {
-- 
2.43.0


From 78cec10f0bbde332c5999a0916f580d8481563c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 12/88] fix: extend each part of a union at its own precision,
 and accept an absent relation

---
 source/relation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 132abb7..4e2fc1a 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2828,10 +2828,11 @@ osl_relation_t* osl_relation_extend_output(const osl_relation_t* relation,
   int i, j;
   int first = 1;
   int offset;
-  int precision = relation->precision;
+  int precision;
   osl_relation_p extended = NULL, node, previous = NULL;
 
   while (relation != NULL) {
+    precision = relation->precision;
     if (relation->nb_output_dims > dim)
       OSL_error("Number of output dims is greater than required extension");
     offset = dim - relation->nb_output_dims;
-- 
2.43.0


From 677a183d6743ebceadfa3f29aa988103382ca75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 13/88] fix: setting the type of a relation list reaches every
 part of its unions

---
 source/relation_list.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index ec373ba..4255793 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -650,9 +650,7 @@ int osl_relation_list_integrity_check(const osl_relation_list_t* list, int type,
  */
 void osl_relation_list_set_type(osl_relation_list_t* list, int type) {
   while (list != NULL) {
-    if (list->elt != NULL) {
-      list->elt->type = type;
-    }
+    osl_relation_set_type(list->elt, type);
     list = list->next;
   }
 }
-- 
2.43.0


From 9aee021f70211924a1d4a7b9067b007830d8c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 14/88] fix: removing unions keeps every statement after one
 that is split

---
 source/scop.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index a1d9ac9..225c232 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -666,9 +666,9 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
         scop_statement_ptr->next = new_statement;
         scop_statement_ptr = scop_statement_ptr->next;
       }
+      while (scop_statement_ptr->next != NULL)
+        scop_statement_ptr = scop_statement_ptr->next;
     }
-    while (scop_statement_ptr && scop_statement_ptr->next != NULL)
-      scop_statement_ptr = scop_statement_ptr->next;
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-- 
2.43.0


From 310c5ca2d041e6ef7c43f03edd105aaf74454e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 15/88] fix: read ints, strings, lines and tags of any length,
 from lines and comments of any length

---
 source/util.c | 149 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 105 insertions(+), 44 deletions(-)

diff --git a/source/util.c b/source/util.c
index 9e08028..c49fdfc 100644
--- a/source/util.c
+++ b/source/util.c
@@ -86,12 +86,20 @@
  */
 char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
   char* start;
+  int c;
 
   do {
     start = fgets(str, OSL_MAX_STRING, file);
     while ((start != NULL) && isspace(*start) && (*start != '\n'))
       start++;
-  } while (start != NULL && (*start == '#' || *start == '\n'));
+
+    // Skip the end of a comment line which does not fit in str.
+    if ((start != NULL) && (*start == '#') && (strchr(start, '\n') == NULL)) {
+      do {
+        c = fgetc(file);
+      } while ((c != EOF) && (c != '\n'));
+    }
+  } while (start != NULL && (*start == '#' || *start == '\n' || !*start));
 
   return start;
 }
@@ -119,6 +127,46 @@ void osl_util_sskip_blank_and_comments(char** str) {
   } while (*str && **str && **str == '\n');
 }
 
+/**
+ * osl_util_read_data_line internal function:
+ * reads the open file 'file' line by line and skips blank/comment lines and
+ * spaces, as osl_util_skip_blank_and_comments does, for lines of any length.
+ * \param[in]  file  The (opened) file to read.
+ * \param[out] start Address of the first useful character of the line.
+ * \return The line (to be freed by the caller), or NULL if the end of the file
+ *         has been reached.
+ */
+static char* osl_util_read_data_line(FILE* file, char** start) {
+  size_t size = OSL_MAX_STRING, length;
+  char* line;
+
+  OSL_malloc(line, char*, size * sizeof(char));
+  do {
+    length = 0;
+    line[0] = '\0';
+    while (fgets(line + length, (int)(size - length), file) != NULL) {
+      length += strlen(line + length);
+      if ((length > 0) && (line[length - 1] == '\n'))
+        break;
+      if (length + 1 >= size) {
+        size += size;
+        OSL_realloc(line, char*, size * sizeof(char));
+      }
+    }
+
+    if (length == 0) {
+      free(line);
+      return NULL;
+    }
+
+    *start = line;
+    while (isspace(**start) && (**start != '\n'))
+      (*start)++;
+  } while (**start == '#' || **start == '\n' || **start == '\0');
+
+  return line;
+}
+
 /**
  * osl_util_read_int function:
  * reads an int on the input 'file' or the input string 'str' depending on
@@ -130,31 +178,34 @@ void osl_util_sskip_blank_and_comments(char** str) {
  * \return The int that has been read.
  */
 int osl_util_read_int(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
+  char s[OSL_MAX_STRING], *start, *line = NULL;
   int res;
   int i = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
+  // Skip blank/commented lines.
   if (file != NULL) {
-    // Parse from a file.
-    start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %d", &res) != 1)
+    line = osl_util_read_data_line(file, &start);
+    if (line == NULL)
       OSL_error("an int was expected");
+    str = &start;
   } else {
-    // Parse from a string.
-    // Skip blank/commented lines.
     osl_util_sskip_blank_and_comments(str);
+  }
 
-    // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%d", &res) != 1)
+  // Build the chain to analyze.
+  while (**str && !isspace(**str) && **str != '\n' && **str != '#') {
+    if (i >= OSL_MAX_STRING - 1)
       OSL_error("an int was expected");
+    s[i++] = *((*str)++);
   }
+  s[i] = '\0';
+  if (sscanf(s, "%d", &res) != 1)
+    OSL_error("an int was expected");
 
+  free(line);
   return res;
 }
 
@@ -169,33 +220,35 @@ int osl_util_read_int(FILE* file, char** str) {
  * \return The string that has been read.
  */
 char* osl_util_read_string(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
+  char *start, *line = NULL;
   char* res;
-  int i = 0;
+  size_t length = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
+  // Skip blank/commented lines.
   if (file != NULL) {
-    // Parse from a file.
-    start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %s", res) != 1)
+    line = osl_util_read_data_line(file, &start);
+    if (line == NULL)
       OSL_error("a string was expected");
+    str = &start;
   } else {
-    // Parse from a string.
-    // Skip blank/commented lines.
     osl_util_sskip_blank_and_comments(str);
-
-    // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%s", res) != 1)
-      OSL_error("a string was expected");
   }
 
-  OSL_realloc(res, char*, strlen(res) + 1);
+  // Copy the chain.
+  while ((*str)[length] && !isspace((*str)[length]) && (*str)[length] != '#')
+    length++;
+  if (length == 0)
+    OSL_error("a string was expected");
+
+  OSL_malloc(res, char*, (length + 1) * sizeof(char));
+  memcpy(res, *str, length);
+  res[length] = '\0';
+  *str += length;
+
+  free(line);
   return res;
 }
 
@@ -212,28 +265,33 @@ char* osl_util_read_string(FILE* file, char** str) {
  * \return The line that has been read.
  */
 char* osl_util_read_line(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
+  char *start, *line = NULL;
   char* res;
-  int i = 0;
+  size_t length = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
+  // Skip blank/commented lines.
   if (file != NULL) {
-    // Parse from a file.
-    start = osl_util_skip_blank_and_comments(file, s);
-    while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
-      res[i++] = *start++;
+    line = osl_util_read_data_line(file, &start);
+    if (line == NULL)
+      OSL_error("a line was expected");
+    str = &start;
   } else {
-    // Parse from a string.
     osl_util_sskip_blank_and_comments(str);
-    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING)
-      res[i++] = *((*str)++);
   }
 
-  res[i] = '\0';
-  OSL_realloc(res, char*, strlen(res) + 1);
+  // Copy the line.
+  while ((*str)[length] && (*str)[length] != '\n' && (*str)[length] != '#')
+    length++;
+
+  OSL_malloc(res, char*, (length + 1) * sizeof(char));
+  memcpy(res, *str, length);
+  res[length] = '\0';
+  *str += length;
+
+  free(line);
   return res;
 }
 
@@ -252,7 +310,7 @@ char* osl_util_read_line(FILE* file, char** str) {
  * \return The tag name that has been read.
  */
 char* osl_util_read_tag(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
+  char *start, *line = NULL;
   char* res;
   int i = 0;
 
@@ -261,14 +319,14 @@ char* osl_util_read_tag(FILE* file, char** str) {
 
   // Skip blank/commented lines.
   if (file != NULL) {
-    start = osl_util_skip_blank_and_comments(file, s);
+    line = osl_util_read_data_line(file, &start);
     str = &start;
   } else {
     osl_util_sskip_blank_and_comments(str);
   }
 
   // If the end of the input has been reached, return NULL.
-  if (((file != NULL) && (feof(file))) || ((str != NULL) && (**str == '\0')))
+  if (((file != NULL) && (line == NULL)) || (**str == '\0'))
     return NULL;
 
   // Pass the starting '<'.
@@ -278,12 +336,14 @@ char* osl_util_read_tag(FILE* file, char** str) {
 
   // Read the tag.
   OSL_malloc(res, char*, (OSL_MAX_STRING + 1) * sizeof(char));
-  res[OSL_MAX_STRING] = '\0';
+  res[0] = '\0';
 
   while (**str && **str != '>') {
     if (((**str >= 'A') && (**str <= 'Z')) ||
         ((**str >= 'a') && (**str <= 'z')) || ((**str == '/') && (i == 0)) ||
         (**str == '_')) {
+      if (i >= OSL_MAX_STRING)
+        OSL_error("too long tag name");
       res[i++] = *((*str)++);
       res[i] = '\0';
     } else {
@@ -296,6 +356,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
     OSL_error("a \">\" to end a tag was expected");
   (*str)++;
 
+  free(line);
   return res;
 }
 
-- 
2.43.0


From 880170f7dd3c3a1d6c88630613249465f65fc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 16/88] fix: osl_util_tag_content loses the first character and
 overruns on an empty content

---
 source/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index c49fdfc..d535042 100644
--- a/source/util.c
+++ b/source/util.c
@@ -499,7 +499,7 @@ char* osl_util_tag_content(const char* str, const char* name) {
     OSL_malloc(res, char*, (size + 1) * sizeof(char));
 
     // Copy the chain between the two tags.
-    for (++start, i = 0; start != stop; ++start, ++i)
+    for (i = 0; start != stop; ++start, ++i)
       res[i] = *start;
     res[i] = '\0';
   }
-- 
2.43.0


From f8a92064efd575739d18fd278e6c2f45e0bd9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 17/88] fix: osl_strings_sread with several blanks between
 strings, and strings of any length

---
 source/strings.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 6885b3a..54b6b53 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -134,8 +134,7 @@ char* osl_strings_sprint(const osl_strings_t* strings) {
 
   if (strings != NULL) {
     for (i = 0; i < osl_strings_size(strings); i++) {
-      sprintf(buffer, "%s", strings->string[i]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, strings->string[i], &high_water_mark);
       if (i < osl_strings_size(strings) - 1)
         osl_util_safe_strcat(&string, " ", &high_water_mark);
     }
@@ -183,11 +182,9 @@ void osl_strings_print(FILE* const file, const osl_strings_t* const strings) {
  * \return A pointer to the strings structure that has been read.
  */
 osl_strings_t* osl_strings_sread(char** const input) {
-  char tmp[OSL_MAX_STRING];
   char* s;
   char** string = NULL;
-  size_t i, nb_strings;
-  int count;
+  size_t i, nb_strings, count;
   osl_strings_p strings = NULL;
 
   // Skip blank/commented lines and spaces before the strings.
@@ -217,15 +214,20 @@ osl_strings_t* osl_strings_sread(char** const input) {
     // Read the desired number of strings.
     s = *input;
     for (i = 0; i < nb_strings; i++) {
-      for (count = 0; *s && !isspace(*s) && *s != '#'; count++)
-        tmp[count] = *(s++);
-      tmp[count] = '\0';
-      OSL_strdup(string[i], tmp);
-      if (*s != '#')
+      // Skip the spaces before the string.
+      while (isspace(*s))
         s++;
+      for (count = 0; s[count] && !isspace(s[count]) && s[count] != '#';)
+        count++;
+      OSL_malloc(string[i], char*, (count + 1) * sizeof(char));
+      memcpy(string[i], s, count);
+      string[i][count] = '\0';
+      s += count;
     }
 
     // Update the input pointer to the end of the strings structure.
+    if (*s && *s != '#')
+      s++;
     *input = s;
 
     // Build the strings structure
-- 
2.43.0


From e30fe33523eb6cb14e89ad6cac2901bb95d5ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 18/88] fix: osl_strings_read at the end of the file and on
 lines of any length

---
 source/strings.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 54b6b53..329b12b 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -249,11 +249,13 @@ osl_strings_t* osl_strings_sread(char** const input) {
  * \return The strings structure that has been read.
  */
 osl_strings_t* osl_strings_read(FILE* const file) {
-  char buffer[OSL_MAX_STRING], *start;
+  char *line, *start;
   osl_strings_p strings;
 
-  start = osl_util_skip_blank_and_comments(file, buffer);
+  line = osl_util_read_line(file, NULL);
+  start = line;
   strings = osl_strings_sread(&start);
+  free(line);
 
   return strings;
 }
-- 
2.43.0


From 675334433c577ccdc0a48e53a82e9fb788093db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 19/88] fix: osl_strings_generate of no string gives an empty
 array of strings

---
 source/strings.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 329b12b..959dc6d 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -464,7 +464,8 @@ osl_strings_t* osl_strings_generate(const char* prefix, int nb_strings) {
   int i;
   osl_strings_p generated;
 
-  if (nb_strings) {
+  generated = osl_strings_malloc();
+  if (nb_strings > 0) {
     OSL_malloc(strings, char**, sizeof(char*) * (size_t)(nb_strings + 1));
     strings[nb_strings] = NULL;
     for (i = 0; i < nb_strings; i++) {
@@ -473,11 +474,10 @@ osl_strings_t* osl_strings_generate(const char* prefix, int nb_strings) {
       if (strings[i] == NULL)
         OSL_error("memory overflow");
     }
+    free(generated->string);
+    generated->string = strings;
   }
 
-  generated = osl_strings_malloc();
-  free(generated->string);
-  generated->string = strings;
   return generated;
 }
 
-- 
2.43.0


From 966b17e5103545bd60f86d5c8bb5a2a77ea1b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 20/88] fix: osl_relation_expression: names and expressions of
 any length, matrix not written while printing

---
 source/relation.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 4e2fc1a..89d2bca 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -274,10 +274,15 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
                                       int* const first, int cst,
                                       const char* const name) {
   char *temp, *body, *sval;
+  size_t size = OSL_MAX_STRING;
 
-  OSL_malloc(temp, char*, OSL_MAX_STRING * sizeof(char));
+  if (precision == OSL_PRECISION_MP)
+    size += osl_int_size_in_base_10(precision, val);
+  if (name != NULL)
+    size += strlen(name);
+  OSL_malloc(temp, char*, size * sizeof(char));
   OSL_malloc(body, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(sval, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sval, char*, size * sizeof(char));
 
   body[0] = '\0';
   sval[0] = '\0';
@@ -417,34 +422,33 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
                                  int start, int stop, int oppose,
                                  char** strings) {
   int i, first = 1, constant;
+  size_t high_water_mark = OSL_MAX_STRING;
   char* sval;
   char* sline;
+  osl_int_t value;
 
-  OSL_malloc(sline, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sline, char*, high_water_mark * sizeof(char));
   sline[0] = '\0';
+  osl_int_init(relation->precision, &value);
 
   // Create the expression. The constant is a special case.
   for (i = start; i <= stop; i++) {
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
+    if (oppose)
+      osl_int_oppose(relation->precision, &value, relation->m[row][i]);
+    else
+      osl_int_assign(relation->precision, &value, relation->m[row][i]);
 
     if (i == relation->nb_columns - 1)
       constant = 1;
     else
       constant = 0;
 
-    sval = osl_relation_expression_element(
-        relation->m[row][i], relation->precision, &first, constant, strings[i]);
-
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
-    strcat(sline, sval);
+    sval = osl_relation_expression_element(value, relation->precision, &first,
+                                           constant, strings[i]);
+    osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
+  osl_int_clear(relation->precision, &value);
 
   return sline;
 }
-- 
2.43.0


From 1d2137130628ecf510916aaaf3e4bf1efa713159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 21/88] fix: osl_relation_sprint_comment does not cut long
 expressions

---
 source/relation.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 89d2bca..29c21b9 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -535,7 +535,6 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
   char* expression;
-  char buffer[OSL_MAX_STRING];
 
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
@@ -550,8 +549,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
 
     expression = osl_relation_subexpression(
         relation, row, 1, relation->nb_output_dims, sign < 0, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
@@ -560,27 +559,27 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
-      snprintf(buffer, OSL_MAX_STRING, " == %s", expression);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string, expression, &high_water_mark);
       free(expression);
     } else {
-      snprintf(buffer, OSL_MAX_STRING, " == %s",
-               arrays[osl_relation_get_array_id(relation) - 1]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string,
+                           arrays[osl_relation_get_array_id(relation) - 1],
+                           &high_water_mark);
     }
   } else {
     // Second case : general case.
 
     expression = osl_relation_expression(relation, row, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     if (osl_int_zero(relation->precision, relation->m[row][0]))
-      snprintf(buffer, OSL_MAX_STRING, " == 0");
+      osl_util_safe_strcat(&string, " == 0", &high_water_mark);
     else
-      snprintf(buffer, OSL_MAX_STRING, " >= 0");
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " >= 0", &high_water_mark);
   }
 
   return string;
-- 
2.43.0


From f70c19b83c30b245c09a0dfa2d5e71689fcdc9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 22/88] fix: printing a relation does not overflow on the
 smallest integer

---
 source/relation.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 29c21b9..e4286c2 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -516,6 +516,28 @@ int osl_relation_is_simple_output(const osl_relation_t* relation, int row) {
   return sign;
 }
 
+/**
+ * osl_relation_is_opposable function:
+ * this function checks that every element of a given row of a relation has an
+ * opposite which fits the precision of the relation.
+ * \param[in] relation The relation to test.
+ * \param[in] row      The row to test.
+ * \return 1 if the row can be opposed, 0 otherwise.
+ */
+static int osl_relation_is_opposable(const osl_relation_t* relation, int row) {
+  int i;
+
+  for (i = 0; i < relation->nb_columns; i++) {
+    if (((relation->precision == OSL_PRECISION_SP) &&
+         (relation->m[row][i].sp == LONG_MIN)) ||
+        ((relation->precision == OSL_PRECISION_DP) &&
+         (relation->m[row][i].dp == LLONG_MIN)))
+      return 0;
+  }
+
+  return 1;
+}
+
 /**
  * osl_relation_sprint_comment function:
  * this function prints into a string a comment corresponding to a constraint
@@ -544,7 +566,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     return string;
   }
 
-  if ((sign = osl_relation_is_simple_output(relation, row))) {
+  if ((sign = osl_relation_is_simple_output(relation, row)) &&
+      osl_relation_is_opposable(relation, row)) {
     // First case : output == expression.
 
     expression = osl_relation_subexpression(
-- 
2.43.0


From 52904993a71dd24882d9832597ac44a69abe5e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 23/88] fix: printing an access relation without array
 identifier or array name

---
 source/relation.c | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index e4286c2..9f78b5d 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -538,6 +538,30 @@ static int osl_relation_is_opposable(const osl_relation_t* relation, int row) {
   return 1;
 }
 
+/**
+ * osl_relation_array_name function:
+ * this function returns the name of the array referenced by an access
+ * relation.
+ * \param[in] relation The access relation.
+ * \param[in] arrays   NULL-terminated array of identifiers of the arrays.
+ * \return The name of the array, or NULL if it has no identifier or no name.
+ */
+static const char* osl_relation_array_name(const osl_relation_t* relation,
+                                           char** arrays) {
+  int i;
+  int id = osl_relation_get_array_id(relation);
+
+  if ((arrays == NULL) || (id == OSL_UNDEFINED))
+    return NULL;
+
+  for (i = 0; i < id - 1; i++) {
+    if (arrays[i] == NULL)
+      return NULL;
+  }
+
+  return arrays[id - 1];
+}
+
 /**
  * osl_relation_sprint_comment function:
  * this function prints into a string a comment corresponding to a constraint
@@ -556,6 +580,7 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
   int sign;
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
+  const char* array = NULL;
   char* expression;
 
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
@@ -577,8 +602,11 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
-    if (!osl_relation_is_access(relation) ||
-        osl_int_zero(relation->precision, relation->m[row][1])) {
+    if (osl_relation_is_access(relation) &&
+        !osl_int_zero(relation->precision, relation->m[row][1]))
+      array = osl_relation_array_name(relation, arrays);
+
+    if (array == NULL) {
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
@@ -587,9 +615,7 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       free(expression);
     } else {
       osl_util_safe_strcat(&string, " == ", &high_water_mark);
-      osl_util_safe_strcat(&string,
-                           arrays[osl_relation_get_array_id(relation) - 1],
-                           &high_water_mark);
+      osl_util_safe_strcat(&string, array, &high_water_mark);
     }
   } else {
     // Second case : general case.
@@ -876,8 +902,9 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
       }
 
       if (name_array != NULL) {
-        comment = osl_relation_sprint_comment(relation, i, name_array,
-                                              names->arrays->string);
+        comment = osl_relation_sprint_comment(
+            relation, i, name_array,
+            names->arrays != NULL ? names->arrays->string : NULL);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
       }
@@ -1113,8 +1140,9 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
 
       // equation in comment
       if (name_array != NULL) {
-        comment = osl_relation_sprint_comment(relation, i, name_array,
-                                              names->arrays->string);
+        comment = osl_relation_sprint_comment(
+            relation, i, name_array,
+            names->arrays != NULL ? names->arrays->string : NULL);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
         snprintf(buffer, OSL_MAX_STRING, "\n");
-- 
2.43.0


From 1a75fffb4a849100945639bc7a2404b6edff4905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 24/88] fix: printing a relation with fewer names than
 dimensions

---
 source/relation.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 9f78b5d..33f4680 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -335,6 +335,22 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
   return (sval);
 }
 
+/**
+ * osl_relation_dimension_name function:
+ * this function returns a copy of the name of a dimension, or of a question
+ * mark if there is no name for it.
+ * \param[in] names The names of this kind of dimensions.
+ * \param[in] index The index of the dimension.
+ * \return A copy of the name of the dimension.
+ */
+static char* osl_relation_dimension_name(const osl_strings_t* names,
+                                         int index) {
+  if ((size_t)index < osl_strings_size(names))
+    return osl_util_strdup(names->string[index]);
+
+  return osl_util_strdup("?");
+}
+
 /**
  * osl_relation_strings function:
  * this function creates a NULL-terminated array of strings from an
@@ -375,28 +391,28 @@ char** osl_relation_strings(const osl_relation_t* relation,
   } else if ((relation->type == OSL_TYPE_DOMAIN) ||
              (relation->type == OSL_TYPE_CONTEXT)) {
     for (i = offset; i < relation->nb_output_dims + offset; i++) {
-      OSL_strdup(strings[i], names->iterators->string[i - offset]);
+      strings[i] = osl_relation_dimension_name(names->iterators, i - offset);
     }
   } else {
     for (i = offset; i < relation->nb_output_dims + offset; i++) {
-      OSL_strdup(strings[i], names->scatt_dims->string[i - offset]);
+      strings[i] = osl_relation_dimension_name(names->scatt_dims, i - offset);
     }
   }
   offset += relation->nb_output_dims;
 
   // 3. Input dimensions.
   for (i = offset; i < relation->nb_input_dims + offset; i++)
-    OSL_strdup(strings[i], names->iterators->string[i - offset]);
+    strings[i] = osl_relation_dimension_name(names->iterators, i - offset);
   offset += relation->nb_input_dims;
 
   // 4. Local dimensions.
   for (i = offset; i < relation->nb_local_dims + offset; i++)
-    OSL_strdup(strings[i], names->local_dims->string[i - offset]);
+    strings[i] = osl_relation_dimension_name(names->local_dims, i - offset);
   offset += relation->nb_local_dims;
 
   // 5. Parameters.
   for (i = offset; i < relation->nb_parameters + offset; i++)
-    OSL_strdup(strings[i], names->parameters->string[i - offset]);
+    strings[i] = osl_relation_dimension_name(names->parameters, i - offset);
   offset += relation->nb_parameters;
 
   // 6. Scalar.
-- 
2.43.0


From 5f7c99775d2aea50d5fbd56327bce92041ce4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 25/88] fix: column name line of a relation with many columns

---
 source/relation.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 33f4680..2ee6573 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -671,7 +671,9 @@ char* osl_relation_column_string(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  OSL_malloc(scolumn, char*,
+             OSL_MAX_STRING +
+                 (size_t)relation->nb_columns * (OSL_FMT_LENGTH + 2));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -745,7 +747,9 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  OSL_malloc(scolumn, char*,
+             OSL_MAX_STRING +
+                 (size_t)relation->nb_columns * (OSL_FMT_LENGTH + 2));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -904,8 +908,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     if (relation->nb_rows > 0) {
       scolumn = osl_relation_column_string(relation, name_array);
-      snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
     }
 
@@ -1066,8 +1069,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Print column names in comment
       if (relation->nb_rows > 0) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
-        snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
       }
 
-- 
2.43.0


From 4a548ad477048c65d706053efdf97da4e369609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 26/88] fix: printing integers of any length in a relation

---
 source/relation.c | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 2ee6573..3644817 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -847,6 +847,27 @@ int osl_relation_nb_components(const osl_relation_t* relation) {
   return nb_components;
 }
 
+/**
+ * osl_relation_print_element function:
+ * this function appends a matrix element to a string.
+ * \param[in,out] string          The string to complete.
+ * \param[in,out] high_water_mark The allocated size of the string.
+ * \param[in]     precision       The precision of the element.
+ * \param[in]     value           The matrix element.
+ */
+static void osl_relation_print_element(char** string, size_t* high_water_mark,
+                                       int precision, const osl_int_t value) {
+  size_t size = OSL_MAX_STRING;
+  char* element;
+
+  if (precision == OSL_PRECISION_MP)
+    size += osl_int_size_in_base_10(precision, value);
+  OSL_malloc(element, char*, size * sizeof(char));
+  osl_int_sprint(element, precision, value);
+  osl_util_safe_strcat(string, element, high_water_mark);
+  free(element);
+}
+
 /**
  * osl_relation_spprint_polylib function:
  * this function pretty-prints the content of an osl_relation_t structure
@@ -914,8 +935,8 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     for (i = 0; i < relation->nb_rows; i++) {
       for (j = 0; j < relation->nb_columns; j++) {
-        osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_relation_print_element(&string, &high_water_mark, relation->precision,
+                                   relation->m[i][j]);
         snprintf(buffer, OSL_MAX_STRING, " ");
         osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
@@ -1087,8 +1108,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // First column
       if (!is_access_array) {
         // array index name for scoplib
-        osl_int_sprint(buffer, relation->precision, relation->m[i][0]);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_relation_print_element(&string, &high_water_mark, relation->precision,
+                                   relation->m[i][0]);
         snprintf(buffer, OSL_MAX_STRING, " ");
         osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
@@ -1108,16 +1129,16 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Rest of the array
       if (relation->type == OSL_TYPE_DOMAIN) {
         for (j = 1; j < index_input_dims; j++) {
-          osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-          osl_util_safe_strcat(&string, buffer, &high_water_mark);
+          osl_relation_print_element(&string, &high_water_mark, relation->precision,
+                                   relation->m[i][j]);
           snprintf(buffer, OSL_MAX_STRING, " ");
           osl_util_safe_strcat(&string, buffer, &high_water_mark);
         }
 
         // Jmp input_dims
         for (j = index_params; j < relation->nb_columns; j++) {
-          osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-          osl_util_safe_strcat(&string, buffer, &high_water_mark);
+          osl_relation_print_element(&string, &high_water_mark, relation->precision,
+                                   relation->m[i][j]);
           snprintf(buffer, OSL_MAX_STRING, " ");
           osl_util_safe_strcat(&string, buffer, &high_water_mark);
         }
@@ -1130,8 +1151,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
             snprintf(buffer, OSL_MAX_STRING, "   0 ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           } else {
-            osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-            osl_util_safe_strcat(&string, buffer, &high_water_mark);
+            osl_relation_print_element(&string, &high_water_mark, relation->precision,
+                                   relation->m[i][j]);
             snprintf(buffer, OSL_MAX_STRING, " ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           }
@@ -1148,8 +1169,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
             snprintf(buffer, OSL_MAX_STRING, "  0 ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           } else {
-            osl_int_sprint(buffer, relation->precision, relation->m[i][j]);
-            osl_util_safe_strcat(&string, buffer, &high_water_mark);
+            osl_relation_print_element(&string, &high_water_mark, relation->precision,
+                                   relation->m[i][j]);
             snprintf(buffer, OSL_MAX_STRING, " ");
             osl_util_safe_strcat(&string, buffer, &high_water_mark);
           }
-- 
2.43.0


From 7d92da9ec98277e56a663ac47126e7a009031b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 27/88] fix: SCoPLib scattering with the fake iterator prints
 each row once

---
 source/relation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 3644817..a019e12 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -983,7 +983,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
                                            const osl_names_t* names,
                                            int print_nth_part,
                                            int add_fakeiter) {
-  int i, j;
+  int i, j, k;
   int part, nb_parts;
   int generated_names = 0;
   int is_access_array;
@@ -1189,11 +1189,11 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       }
 
       // add the lines in the scattering if we need the fakeiter
-      if (relation->nb_rows > 0 && add_fakeiter &&
+      if (i == relation->nb_rows - 1 && add_fakeiter &&
           relation->type == OSL_TYPE_SCATTERING) {
-        for (i = 0; i < 2; i++) {
+        for (k = 0; k < 2; k++) {
           for (j = 0; j < relation->nb_columns; j++) {
-            if (j == index_output_dims && i == 0)
+            if (j == index_output_dims && k == 0)
               snprintf(buffer, OSL_MAX_STRING, "   1 ");  // fakeiter
             else
               snprintf(buffer, OSL_MAX_STRING, "   0 ");
-- 
2.43.0


From e922eeec28463620e664ed271f0341528d9187cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 28/88] fix: osl_relation_psread sets the type of every part of
 the union

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index a019e12..6411549 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1522,7 +1522,7 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
 
   type = osl_relation_read_type(NULL, input);
   relation = osl_relation_psread_polylib(input, precision);
-  relation->type = type;
+  osl_relation_set_type(relation, type);
 
   return relation;
 }
-- 
2.43.0


From e519e3be2a31a42940b607c81385c5e812d68e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 29/88] fix: relations are read from lines of any length,
 missing coefficients and attributes are errors

---
 source/relation.c | 86 +++++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 48 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 6411549..7932126 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1416,6 +1416,29 @@ return_type:
   return type;
 }
 
+/**
+ * osl_relation_read_row function:
+ * this function reads the elements of a row of a relation.
+ * \param[in,out] relation The relation whose row has to be read.
+ * \param[in]     row      The row to read.
+ * \param[in]     line     The line of text with the elements of the row.
+ */
+static void osl_relation_read_row(osl_relation_t* relation, int row,
+                                  char* line) {
+  int j;
+
+  for (j = 0; j < relation->nb_columns; j++) {
+    while (isspace(*line))
+      line++;
+    if (*line == '\0')
+      OSL_error("not enough columns");
+
+    osl_int_sread(&line, relation->precision, &relation->m[row][j]);
+    if ((*line != '\0') && !isspace(*line))
+      OSL_error("an integer was expected");
+  }
+}
+
 /**
  * osl_relation_pread function ("precision read"):
  * this function reads a relation into a file (foo, posibly stdin) and
@@ -1425,7 +1448,7 @@ return_type:
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
-  int i, j, k, n, read = 0;
+  int i, k, read = 0;
   int nb_rows, nb_columns;
   int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
   int nb_union_parts = 1;
@@ -1433,7 +1456,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
   int read_attributes = 1;
   int first = 1;
   int type;
-  char *c, s[OSL_MAX_STRING], str[OSL_MAX_STRING], *tmp;
+  char* c;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   type = osl_relation_read_type(foo, NULL);
@@ -1445,10 +1468,11 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
       read_attributes = 0;
 
       // Read relation attributes.
-      c = osl_util_skip_blank_and_comments(foo, s);
+      c = osl_util_read_line(foo, NULL);
       read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
+      free(c);
 
       if (((read != 1) && (read != 6)) ||
           ((read == 1) && (may_read_nb_union_parts != 1)))
@@ -1477,21 +1501,9 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
     // Read the matrix of constraints.
     for (i = 0; i < relation->nb_rows; i++) {
-      c = osl_util_skip_blank_and_comments(foo, s);
-      if (c == NULL)
-        OSL_error("not enough rows");
-
-      for (j = 0; j < relation->nb_columns; j++) {
-        if (c == NULL || *c == '#' || *c == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        c += n;
-      }
+      c = osl_util_read_line(foo, NULL);
+      osl_relation_read_row(relation, i, c);
+      free(c);
     }
 
     // Build the linked list of union parts.
@@ -1539,14 +1551,14 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
-  int i, j, k, n, read = 0;
+  int i, k, read = 0;
   int nb_rows, nb_columns;
   int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
   int nb_union_parts = 1;
   int may_read_nb_union_parts = 1;
   int read_attributes = 1;
   int first = 1;
-  char str[OSL_MAX_STRING], *tmp;
+  char* c;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   // Read each part of the union (the number of parts may be updated inside)
@@ -1555,21 +1567,11 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
     while (read_attributes) {
       read_attributes = 0;
       // Read relation attributes.
-      osl_util_sskip_blank_and_comments(input);
-      // make a copy of the first row
-      size_t row_size = 0;
-      tmp = *input;
-      while ((*tmp != '\0') && (*tmp != '\n')) {
-        tmp++;
-        row_size += 1;
-      }
-      strncpy(str, *input, sizeof(char) * row_size);
-      str[(tmp - *input)] = '\0';
-
-      read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
+      c = osl_util_read_line(NULL, input);
+      read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
-      *input = tmp;
+      free(c);
 
       if (((read != 1) && (read != 6)) ||
           ((read == 1) && (may_read_nb_union_parts != 1)))
@@ -1597,21 +1599,9 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
 
     // Read the matrix of constraints.
     for (i = 0; i < relation->nb_rows; i++) {
-      osl_util_sskip_blank_and_comments(input);
-      if (!(*input))
-        OSL_error("not enough rows");
-
-      for (j = 0; j < relation->nb_columns; j++) {
-        if (*input == NULL || **input == '#' || **input == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        *input += n;
-      }
+      c = osl_util_read_line(NULL, input);
+      osl_relation_read_row(relation, i, c);
+      free(c);
     }
 
     // Build the linked list of union parts.
-- 
2.43.0


From 5fc9545088ffd87d25308ec842806522eaeab3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 30/88] fix: lines of any length in osl_annotation_sprint

---
 source/extensions/annotation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index bb41a58..68cd566 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -231,8 +231,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
     for (size_t i = 0; i < annotation->field.count; ++i) {     \
       sprintf(buffer, "%d ", annotation->field.types[i]);      \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", annotation->field.lines[i]);     \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, annotation->field.lines[i], \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
-- 
2.43.0


From 5c00ea418b6a6f45ca8003eec20b92282cbce39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 31/88] fix: lines of any length in osl_region_sprint

---
 source/extensions/region.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index b73632d..1b9ca50 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -273,8 +273,9 @@ char* osl_region_sprint(const osl_region_t* region) {
     for (size_t i = 0; i < region->field.count; ++i) {         \
       sprintf(buffer, "%d ", region->field.types[i]);          \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", region->field.lines[i]);         \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, region->field.lines[i],    \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
-- 
2.43.0


From afb01c60b275ecd18fc64a8e05e948d3acaf3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 32/88] fix: negative counts and absent text are handled by
 osl_annotation_sread

---
 source/extensions/annotation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 68cd566..eaf6181 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -251,7 +251,7 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
  ******************************************************************************/
 
 osl_annotation_t* osl_annotation_sread(char** input) {
-  if (!input) {
+  if (*input == NULL) {
     OSL_debug("no annotation optional tag");
     return NULL;
   }
@@ -260,8 +260,10 @@ osl_annotation_t* osl_annotation_sread(char** input) {
 
 #define osl_annotation_sread_text(field)                           \
   do {                                                             \
-    size_t count = (size_t)osl_util_read_int(NULL, input);         \
-    for (size_t j = 0; j < count; ++j) {                           \
+    const int count = osl_util_read_int(NULL, input);              \
+    if (count < 0)                                                 \
+      OSL_error("negative number of annotation lines");            \
+    for (int j = 0; j < count; ++j) {                              \
       const int line_type = osl_util_read_int(NULL, input);        \
       char* const line = osl_util_read_line(NULL, input);          \
       osl_annotation_text_append(&output->field, line_type, line); \
-- 
2.43.0


From 113f8de7f9a8a769ea438616d110341f080d257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 33/88] fix: negative counts and absent text are handled by
 osl_region_sread

---
 source/extensions/region.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index 1b9ca50..87cd0e6 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -298,12 +298,14 @@ char* osl_region_sprint(const osl_region_t* region) {
  ******************************************************************************/
 
 osl_region_t* osl_region_sread(char** input) {
-  if (!input) {
+  if (*input == NULL) {
     OSL_debug("no region optional tag");
     return NULL;
   }
 
   const int region_count = osl_util_read_int(NULL, input);
+  if (region_count < 0)
+    OSL_error("negative number of regions");
   if (!region_count)
     return NULL;
 
@@ -314,8 +316,10 @@ osl_region_t* osl_region_sread(char** input) {
 
 #define osl_region_sread_text(field)                            \
   do {                                                          \
-    size_t line_count = (size_t)osl_util_read_int(NULL, input); \
-    for (size_t j = 0; j < line_count; ++j) {                   \
+    const int line_count = osl_util_read_int(NULL, input);      \
+    if (line_count < 0)                                         \
+      OSL_error("negative number of region lines");             \
+    for (int j = 0; j < line_count; ++j) {                      \
       const int line_type = osl_util_read_int(NULL, input);     \
       char* const line = osl_util_read_line(NULL, input);       \
       osl_region_text_append(&current->field, line_type, line); \
-- 
2.43.0


From d86563bba8a33b72c61a3581c411f3d6193755d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 34/88] fix: osl_region_equal reads past the end of equal lists

---
 source/extensions/region.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index 87cd0e6..b086dfb 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -434,12 +434,14 @@ bool osl_region_equal_one(const osl_region_t* r1, const osl_region_t* r2) {
 }
 
 bool osl_region_equal(const osl_region_t* r1, const osl_region_t* r2) {
-  bool equal = osl_region_equal_one(r1, r2);
+  while (r1 != NULL && r2 != NULL) {
+    if (!osl_region_equal_one(r1, r2))
+      return false;
+    r1 = r1->next;
+    r2 = r2->next;
+  }
 
-  if (equal)
-    return osl_region_equal(r1->next, r2->next);
-  else
-    return equal;
+  return r1 == r2;
 }
 
 size_t osl_region_count(const osl_region_t* region) {
-- 
2.43.0


From 1e6abb5425ed635ceee688245978c107bfbba876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 35/88] fix: annotation functions accept an absent annotation,
 as those of the other extensions

---
 source/extensions/annotation.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index eaf6181..583571c 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -192,6 +192,7 @@ void osl_annotation_idump(FILE* const file, const osl_annotation_t* annotation,
     fprintf(file, "+-- osl_annotation_t\n");
   } else {
     fprintf(file, "+-- NULL annotation\n");
+    return;
   }
 
   /* Blank line... */
@@ -214,6 +215,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
   char* string = NULL;
   size_t high_water_mark = OSL_MAX_STRING;
 
+  if (annotation == NULL)
+    return NULL;
+
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
 
@@ -294,6 +298,9 @@ osl_annotation_t* osl_annotation_malloc(void) {
 }
 
 void osl_annotation_free(osl_annotation_t* annotation) {
+  if (annotation == NULL)
+    return;
+
   osl_annotation_text_clean(&annotation->prefix);
   osl_annotation_text_clean(&annotation->suffix);
   free(annotation);
@@ -304,6 +311,9 @@ void osl_annotation_free(osl_annotation_t* annotation) {
  *****************************************************************************/
 
 osl_annotation_t* osl_annotation_clone(const osl_annotation_t* const source) {
+  if (source == NULL)
+    return NULL;
+
   osl_annotation_t* const clone = osl_annotation_malloc();
 
   clone->prefix = osl_annotation_text_clone(&source->prefix);
-- 
2.43.0


From 55e6c390bdfba26821f8572e107e204ea823cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 36/88] fix: file names of any length in osl_coordinates_sprint

---
 source/extensions/coordinates.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index e9e9b44..b6c72bd 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -159,8 +159,11 @@ char* osl_coordinates_sprint(const osl_coordinates_t* const coordinates) {
     string[0] = '\0';
 
     // Print the coordinates content.
-    sprintf(buffer, "# File name\n%s\n", coordinates->name);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "# File name\n", &high_water_mark);
+    osl_util_safe_strcat(&string,
+                         coordinates->name ? coordinates->name : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Starting line and column\n%d %d\n",
             coordinates->line_start, coordinates->column_start);
-- 
2.43.0


From fcb6fb446f9f86897cb414812d8e5f3d918c03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 37/88] fix: osl_coordinates_equal with an absent file name

---
 source/extensions/coordinates.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index b6c72bd..bccd900 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -307,7 +307,8 @@ bool osl_coordinates_equal(const osl_coordinates_t* const c1,
   if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
     return 0;
 
-  if (strcmp(c1->name, c2->name)) {
+  if ((c1->name != c2->name) && ((c1->name == NULL) || (c2->name == NULL) ||
+                                 strcmp(c1->name, c2->name))) {
     OSL_info("file names are not the same");
     return 0;
   }
-- 
2.43.0


From d18492ea1b2a941796541d7779ecbff5f9e86a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 38/88] fix: array names of any length in osl_arrays_sprint

---
 source/extensions/arrays.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 71856a9..a7e8df9 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -160,8 +160,10 @@ char* osl_arrays_sprint(const osl_arrays_t* const arrays) {
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
     for (i = 0; i < arrays->nb_names; i++) {
-      sprintf(buffer, "%d %s\n", arrays->id[i], arrays->names[i]);
+      sprintf(buffer, "%d ", arrays->id[i]);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, arrays->names[i], &high_water_mark);
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
     }
 
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
-- 
2.43.0


From 1d548173cabf93714ddaf81c5437ee48e725c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 39/88] fix: osl_arrays_sread refuses negative counts and
 accepts absent text

---
 source/extensions/arrays.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index a7e8df9..d48d1e5 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -192,7 +192,7 @@ osl_arrays_t* osl_arrays_sread(char** input) {
   int nb_names;
   osl_arrays_p arrays;
 
-  if (input == NULL) {
+  if (*input == NULL) {
     OSL_debug("no arrays optional tag");
     return NULL;
   }
@@ -201,6 +201,8 @@ osl_arrays_t* osl_arrays_sread(char** input) {
   nb_names = osl_util_read_int(NULL, input);
 
   // Allocate the array of id and names.
+  if (nb_names < 0)
+    OSL_error("negative number of arrays");
   arrays = osl_arrays_malloc();
   OSL_malloc(arrays->id, int*, (size_t)nb_names * sizeof(int));
   OSL_malloc(arrays->names, char**, (size_t)nb_names * sizeof(char*));
-- 
2.43.0


From 248fa07c0fd61b6b884274a1a2c59cec6faa5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 40/88] fix: osl_arrays_equal was not symmetric with repeated
 entries

---
 source/extensions/arrays.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index d48d1e5..58b0eb5 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -305,7 +305,7 @@ osl_arrays_t* osl_arrays_clone(const osl_arrays_t* const arrays) {
  */
 bool osl_arrays_equal(const osl_arrays_t* const a1,
                       const osl_arrays_t* const a2) {
-  int i, j, found;
+  int i, j, nb1, nb2;
 
   if (a1 == a2)
     return 1;
@@ -323,15 +323,18 @@ bool osl_arrays_equal(const osl_arrays_t* const a1,
 
   // We accept a different order of the names, as long as the identifiers
   // are the same.
+  // We accept a different order of the names, hence each pair must appear as
+  // many times in both.
   for (i = 0; i < a1->nb_names; i++) {
-    found = 0;
-    for (j = 0; j < a2->nb_names; j++) {
-      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))) {
-        found = 1;
-        break;
-      }
+    nb1 = 0;
+    nb2 = 0;
+    for (j = 0; j < a1->nb_names; j++) {
+      if ((a1->id[i] == a1->id[j]) && (!strcmp(a1->names[i], a1->names[j])))
+        nb1++;
+      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j])))
+        nb2++;
     }
-    if (found != 1) {
+    if (nb1 != nb2) {
       OSL_info("arrays are not the same");
       return 0;
     }
-- 
2.43.0


From 4ea1d912e2e5fe6a7954b9712ba061f4409c8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 41/88] fix: osl_arrays_to_strings writes out of bounds for
 identifiers lower than 1

---
 source/extensions/arrays.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 58b0eb5..3db466d 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -370,6 +370,9 @@ osl_strings_t* osl_arrays_to_strings(const osl_arrays_t* const arrays) {
   // Build a strings structure for this number of ids.
   strings = osl_strings_generate("Dummy", max_id);
   for (i = 0; i < arrays->nb_names; i++) {
+    // Identifiers start from 1: there is no place for the others.
+    if (arrays->id[i] < 1)
+      continue;
     free(strings->string[arrays->id[i] - 1]);
     OSL_strdup(strings->string[arrays->id[i] - 1], arrays->names[i]);
   }
-- 
2.43.0


From 64ef4f9b2edbb4ca1897daa778cf64253a575bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 42/88] fix: osl_extbody_equal was not symmetric with repeated
 entries

---
 source/extensions/extbody.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/extensions/extbody.c b/source/extensions/extbody.c
index f7d03eb..977c1e2 100644
--- a/source/extensions/extbody.c
+++ b/source/extensions/extbody.c
@@ -311,7 +311,7 @@ osl_extbody_t* osl_extbody_clone(const osl_extbody_t* const ebody) {
  */
 bool osl_extbody_equal(const osl_extbody_t* const e1,
                        const osl_extbody_t* const e2) {
-  size_t i, j, found;
+  size_t i, j, nb1, nb2;
 
   if (e1 == e2)
     return 1;
@@ -329,15 +329,18 @@ bool osl_extbody_equal(const osl_extbody_t* const e1,
 
   // We accept a different order of the start/length, as long as the
   // identifiers are the same.
+  // We accept a different order of the accesses, hence each pair must appear
+  // as many times in both.
   for (i = 0; i < e1->nb_access; i++) {
-    found = 0;
-    for (j = 0; j < e2->nb_access; j++) {
-      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j])) {
-        found = 1;
-        break;
-      }
+    nb1 = 0;
+    nb2 = 0;
+    for (j = 0; j < e1->nb_access; j++) {
+      if ((e1->start[i] == e1->start[j]) && (e1->length[i] == e1->length[j]))
+        nb1++;
+      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j]))
+        nb2++;
     }
-    if (found != 1) {
+    if (nb1 != nb2) {
       OSL_info("extbody are not the same");
       return 0;
     }
-- 
2.43.0


From dc755866871b88763306e2043c1d1bde8e92d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 43/88] fix: osl_extbody_sread accepts an absent text

---
 source/extensions/extbody.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/extbody.c b/source/extensions/extbody.c
index 977c1e2..203e84e 100644
--- a/source/extensions/extbody.c
+++ b/source/extensions/extbody.c
@@ -198,7 +198,7 @@ osl_extbody_t* osl_extbody_sread(char** input) {
   int nb_access;
   osl_extbody_p ebody;
 
-  if (input == NULL) {
+  if (*input == NULL) {
     OSL_debug("no extbody optional tag");
     return NULL;
   }
-- 
2.43.0


From c468ab659177c803fced0eb463f4b6df3f5791ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 44/88] fix: osl_scatinfos_sread refuses a negative number of
 dimensions

---
 source/extensions/scatinfos.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/extensions/scatinfos.c b/source/extensions/scatinfos.c
index 1b61ca6..0e0b77f 100644
--- a/source/extensions/scatinfos.c
+++ b/source/extensions/scatinfos.c
@@ -234,6 +234,7 @@ char* osl_scatinfos_sprint(const osl_scatinfos_t* const scatinfos) {
  * \return A pointer to the scatinfos structure that has been read.
  */
 osl_scatinfos_t* osl_scatinfos_sread(char** input) {
+  int nb_scatdims;
   osl_scatinfos_p scatinfos;
 
   if (*input == NULL) {
@@ -242,7 +243,10 @@ osl_scatinfos_t* osl_scatinfos_sread(char** input) {
   }
 
   scatinfos = osl_scatinfos_malloc();
-  scatinfos->nb_scatdims = (size_t)osl_util_read_int(NULL, input);
+  nb_scatdims = osl_util_read_int(NULL, input);
+  if (nb_scatdims < 0)
+    OSL_error("negative number of scattering dimensions");
+  scatinfos->nb_scatdims = (size_t)nb_scatdims;
 
   OSL_malloc(scatinfos->parallel, int*, scatinfos->nb_scatdims * sizeof(int));
   for (size_t i = 0; i < scatinfos->nb_scatdims; i++)
-- 
2.43.0


From 719a951f129840534160e7fb12dfb778dcb42f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 45/88] fix: osl_scatnames_sprint of absent names

---
 source/extensions/scatnames.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/scatnames.c b/source/extensions/scatnames.c
index 68ad02e..f9d908f 100644
--- a/source/extensions/scatnames.c
+++ b/source/extensions/scatnames.c
@@ -132,6 +132,9 @@ void osl_scatnames_dump(FILE* const file,
  * \return A string containing the OpenScop dump of the scatnames structure.
  */
 char* osl_scatnames_sprint(const osl_scatnames_t* const scatnames) {
+  if (scatnames == NULL)
+    return NULL;
+
   return osl_strings_sprint(scatnames->names);
 }
 
-- 
2.43.0


From b17cdfb054470026023b45d19134a05999a843e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 46/88] fix: comment text of any length is printed and read,
 and the input is passed

---
 source/extensions/comment.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 1798d15..387c553 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -138,15 +138,14 @@ void osl_comment_dump(FILE* const file, const osl_comment_t* const comment) {
 char* osl_comment_sprint(const osl_comment_t* const comment) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (comment != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the comment.
-    sprintf(buffer, "%s", comment->comment);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    if (comment->comment != NULL)
+      osl_util_safe_strcat(&string, comment->comment, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
@@ -177,15 +176,12 @@ osl_comment_t* osl_comment_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("comment too long");
-
   // Build the comment structure
   comment = osl_comment_malloc();
   OSL_strdup(comment->comment, *input);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return comment;
 }
-- 
2.43.0


From 1a2d6d49a04169e0447fa6b60908d60616039d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 47/88] fix: clay text of any length is printed and read, and
 the input is passed

---
 source/extensions/clay.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index b65cdc2..47f69c1 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -137,15 +137,14 @@ void osl_clay_dump(FILE* const file, const osl_clay_t* const clay) {
 char* osl_clay_sprint(const osl_clay_t* const clay) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (clay != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the clay.
-    sprintf(buffer, "%s", clay->script);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    if (clay->script != NULL)
+      osl_util_safe_strcat(&string, clay->script, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
@@ -177,9 +176,6 @@ osl_clay_t* osl_clay_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("clay script too long");
-
   // Build the clay structure
   clay = osl_clay_malloc();
   script = *input;
@@ -191,7 +187,7 @@ osl_clay_t* osl_clay_sread(char** input) {
   OSL_strdup(clay->script, script);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return clay;
 }
-- 
2.43.0


From b6c6f0165c8a8226468d7759657c619c3c631a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 48/88] fix: osl_clay_equal with an absent script

---
 source/extensions/clay.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index 47f69c1..c7c09a7 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -267,7 +267,9 @@ bool osl_clay_equal(const osl_clay_t* const c1, const osl_clay_t* const c2) {
     return 0;
   }
 
-  if (strcmp(c1->script, c2->script)) {
+  if ((c1->script != c2->script) &&
+      ((c1->script == NULL) || (c2->script == NULL) ||
+       strcmp(c1->script, c2->script))) {
     OSL_info("clay scripts are not the same");
     return 0;
   }
-- 
2.43.0


From 01b968039441d0d61cfd3df25c586db9a66c30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 49/88] fix: osl_null_sread passes the input

---
 source/extensions/null.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/null.c b/source/extensions/null.c
index 20f012e..3b8f91a 100644
--- a/source/extensions/null.c
+++ b/source/extensions/null.c
@@ -156,7 +156,7 @@ osl_null_t* osl_null_sread(char** input) {
   null = osl_null_malloc();
 
   // Update the input pointer (everything has been read and ignored).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return null;
 }
-- 
2.43.0


From 85203309921e8c0f2ad04aca533da4e76ff2db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 50/88] fix: the readers of extensions accept an absent text
 address as well

---
 source/extensions/annotation.c | 2 +-
 source/extensions/arrays.c     | 2 +-
 source/extensions/extbody.c    | 2 +-
 source/extensions/region.c     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 583571c..5f87ec7 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -255,7 +255,7 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
  ******************************************************************************/
 
 osl_annotation_t* osl_annotation_sread(char** input) {
-  if (*input == NULL) {
+  if ((input == NULL) || (*input == NULL)) {
     OSL_debug("no annotation optional tag");
     return NULL;
   }
diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 3db466d..ef16186 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -192,7 +192,7 @@ osl_arrays_t* osl_arrays_sread(char** input) {
   int nb_names;
   osl_arrays_p arrays;
 
-  if (*input == NULL) {
+  if ((input == NULL) || (*input == NULL)) {
     OSL_debug("no arrays optional tag");
     return NULL;
   }
diff --git a/source/extensions/extbody.c b/source/extensions/extbody.c
index 203e84e..a908e01 100644
--- a/source/extensions/extbody.c
+++ b/source/extensions/extbody.c
@@ -198,7 +198,7 @@ osl_extbody_t* osl_extbody_sread(char** input) {
   int nb_access;
   osl_extbody_p ebody;
 
-  if (*input == NULL) {
+  if ((input == NULL) || (*input == NULL)) {
     OSL_debug("no extbody optional tag");
     return NULL;
   }
diff --git a/source/extensions/region.c b/source/extensions/region.c
index b086dfb..50a0cdd 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -298,7 +298,7 @@ char* osl_region_sprint(const osl_region_t* region) {
  ******************************************************************************/
 
 osl_region_t* osl_region_sread(char** input) {
-  if (*input == NULL) {
+  if ((input == NULL) || (*input == NULL)) {
     OSL_debug("no region optional tag");
     return NULL;
   }
-- 
2.43.0


From a5aff0adff2b3e6a63eb1cc9c770be66988ffda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 51/88] fix: loop iterators and clauses of any length in
 osl_loop_sprint

---
 source/extensions/loop.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index f6ff067..98cba6c 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -204,8 +204,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Iterator name\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->iter);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, (loop->iter != NULL) ? loop->iter : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Number of stmts\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -223,8 +224,10 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Private variables\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->private_vars);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(
+        &string, (loop->private_vars != NULL) ? loop->private_vars : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Directive\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -233,8 +236,10 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     // special case for OSL_LOOP_DIRECTIVE_USER
     if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {
-      sprintf(buffer, " %s", loop->user);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " ", &high_water_mark);
+      osl_util_safe_strcat(&string,
+                           (loop->user != NULL) ? loop->user : "(null)",
+                           &high_water_mark);
     }
     sprintf(buffer, "\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-- 
2.43.0


From 7b4b8cf48db7882e51103bd671f748ff67411bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 52/88] fix: osl_loop_sread refuses negative counts and accepts
 absent text

---
 source/extensions/loop.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 98cba6c..98ce8bb 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -268,11 +268,11 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
  */
 osl_loop_t* osl_loop_sread(char** input) {
   size_t i;
-  int nb_loops;
+  int nb_loops, nb_stmts;
   osl_loop_p head;
   osl_loop_p loop;
 
-  if (input == NULL) {
+  if ((input == NULL) || (*input == NULL)) {
     OSL_debug("no loop optional tag");
     return NULL;
   }
@@ -281,13 +281,18 @@ osl_loop_t* osl_loop_sread(char** input) {
   nb_loops = osl_util_read_int(NULL, input);
   if (nb_loops == 0)
     return NULL;
+  if (nb_loops < 0)
+    OSL_error("negative number of loops");
 
   // Allocate the array of id and names.
   head = loop = osl_loop_malloc();
 
   while (nb_loops != 0) {
     loop->iter = osl_util_read_string(NULL, input);
-    loop->nb_stmts = (size_t)osl_util_read_int(NULL, input);
+    nb_stmts = osl_util_read_int(NULL, input);
+    if (nb_stmts < 0)
+      OSL_error("negative number of statements in a loop");
+    loop->nb_stmts = (size_t)nb_stmts;
 
     OSL_malloc(loop->stmt_ids, int*, loop->nb_stmts * sizeof(int));
     for (i = 0; i < loop->nb_stmts; i++)
-- 
2.43.0


From e90cbd634ab14d3ed16ab0b07b6e44f8c392135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 53/88] fix: comparing loops where a clause is absent

---
 source/extensions/loop.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 98ce8bb..7733cc2 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -446,6 +446,17 @@ osl_loop_t* osl_loop_clone(const osl_loop_t* loop) {
   return head;
 }
 
+/**
+ * osl_loop_same_string internal function:
+ * this function returns 1 if the two strings (possibly NULL) are the same,
+ * 0 otherwise.
+ */
+static int osl_loop_same_string(const char* s1, const char* s2) {
+  if ((s1 == NULL) || (s2 == NULL))
+    return s1 == s2;
+  return strcmp(s1, s2) == 0;
+}
+
 /**
  * osl_loop_equal_one function:
  * this function returns true if the two loop structures are the same
@@ -475,7 +486,7 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
 
-  if (strcmp(a1->iter, a2->iter)) {
+  if (!osl_loop_same_string(a1->iter, a2->iter)) {
     // OSL_info("loops are not the same (iter name)");
     return 0;
   }
@@ -496,11 +507,9 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
   }
 
   // TODO: necessarily same ???
-  if (a1->private_vars != a2->private_vars) {  // NULL check
-    if (strcmp(a1->private_vars, a2->private_vars)) {
-      // OSL_info("loops are not the same (private vars)");
-      return 0;
-    }
+  if (!osl_loop_same_string(a1->private_vars, a2->private_vars)) {
+    // OSL_info("loops are not the same (private vars)");
+    return 0;
   }
 
   // TODO: necessarily same ???
@@ -509,11 +518,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
 
-  if (a1->user != a2->user) {  // NULL check
-    if (strcmp(a1->user, a2->user)) {
-      return 0;
-    }
-  }
+  if (!osl_loop_same_string(a1->user, a2->user))
+    return 0;
 
   return 1;
 }
-- 
2.43.0


From ae040e113d5edb34cd514727f30d1bd2326f9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 54/88] fix: osl_loop_equal was not symmetric with repeated
 entries

---
 source/extensions/loop.c | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 7733cc2..c3d6b3a 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -470,7 +470,7 @@ static int osl_loop_same_string(const char* s1, const char* s2) {
  */
 bool osl_loop_equal_one(const osl_loop_t* const a1,
                         const osl_loop_t* const a2) {
-  size_t i, j, found;
+  size_t i, j, found1, found2;
 
   if (a1 == a2)
     return 1;
@@ -491,16 +491,16 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
   // We accept a different order of the names, as long as the identifiers
-  // are the same.
+  // are the same (each of them the same number of times).
   for (i = 0; i < a1->nb_stmts; i++) {
-    found = 0;
+    found1 = found2 = 0;
     for (j = 0; j < a2->nb_stmts; j++) {
-      if (a1->stmt_ids[i] == a2->stmt_ids[j]) {
-        found = 1;
-        break;
-      }
+      if (a1->stmt_ids[i] == a1->stmt_ids[j])
+        found1++;
+      if (a1->stmt_ids[i] == a2->stmt_ids[j])
+        found2++;
     }
-    if (found != 1) {
+    if (found1 != found2) {
       // OSL_info("loop are not the same (stmt ids)");
       return 0;
     }
@@ -536,7 +536,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
  * \return        1 if a1 and a2 are the same (content-wise), 0 otherwise.
  */
 bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
-  int found = 0;
+  int found1, found2;
+  const osl_loop_t *l1, *l2, *node;
 
   if (a1 == a2)
     return 1;
@@ -551,23 +552,18 @@ bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
     return 0;
   }
 
-  while (a1) {
-    found = 0;
-    const osl_loop_t* temp = a2;
-
-    while (temp) {
-      if (osl_loop_equal_one(a1, temp) == 1) {
-        found = 1;
-        break;
-      }
-      temp = temp->next;
+  // Each loop must be as many times in the first list as in the second one.
+  for (node = a1; node != NULL; node = node->next) {
+    found1 = found2 = 0;
+    for (l1 = a1, l2 = a2; l1 != NULL; l1 = l1->next, l2 = l2->next) {
+      found1 += osl_loop_equal_one(node, l1);
+      found2 += osl_loop_equal_one(node, l2);
     }
 
-    if (found != 1) {
+    if (found1 != found2) {
       OSL_info("list of loops are not the same");
       return 0;
     }
-    a1 = a1->next;
   }
 
   return 1;
-- 
2.43.0


From c6fd89039c2e7c06c073390318f2b420e5e225b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 55/88] fix: unroll lists of any length in
 osl_pluto_unroll_sprint

---
 source/extensions/pluto_unroll.c | 36 +++++++++++++++++---------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index d5f4190..1a28c2f 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -62,6 +62,7 @@
 #include <string.h>
 
 #include <osl/macros.h>
+#include <osl/util.h>
 
 #include <osl/extensions/pluto_unroll.h>
 
@@ -164,39 +165,40 @@ void osl_pluto_unroll_dump(FILE* const file,
  * \return a string containing the OpenScop dump of the loop structure.
  */
 char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
+  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING] = {0};
+  char buffer[OSL_MAX_STRING];
 
-  strcat(buffer, "# Pluto unroll\n");
+  OSL_malloc(string, char*, high_water_mark * sizeof(char));
+  string[0] = '\0';
+
+  osl_util_safe_strcat(&string, "# Pluto unroll\n", &high_water_mark);
   if (pluto_unroll != NULL) {
-    strcat(buffer, "1\n");
+    osl_util_safe_strcat(&string, "1\n", &high_water_mark);
   } else {
-    strcat(buffer, "0\n");
+    osl_util_safe_strcat(&string, "0\n", &high_water_mark);
   }
 
   while (pluto_unroll != NULL) {
-    strcat(buffer, "# Iterator name\n");
-    sprintf(buffer + strlen(buffer), "%s\n", pluto_unroll->iter);
-
-    strcat(buffer, "# Jam\n");
-    sprintf(buffer + strlen(buffer), "%i\n", pluto_unroll->jam);
+    osl_util_safe_strcat(&string, "# Iterator name\n", &high_water_mark);
+    osl_util_safe_strcat(
+        &string, (pluto_unroll->iter != NULL) ? pluto_unroll->iter : "(null)",
+        &high_water_mark);
 
-    strcat(buffer, "# Factor\n");
-    sprintf(buffer + strlen(buffer), "%u\n", pluto_unroll->factor);
+    sprintf(buffer, "\n# Jam\n%i\n# Factor\n%u\n", pluto_unroll->jam,
+            pluto_unroll->factor);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
     pluto_unroll = pluto_unroll->next;
 
-    strcat(buffer, "# Next\n");
     if (pluto_unroll != NULL) {
-      strcat(buffer, "1\n");
+      osl_util_safe_strcat(&string, "# Next\n1\n", &high_water_mark);
     } else {
-      strcat(buffer, "0\n");
+      osl_util_safe_strcat(&string, "# Next\n0\n", &high_water_mark);
     }
   }
 
-  OSL_realloc(string, char*, (strlen(buffer) + 1) * sizeof(char));
-  strcpy(string, buffer);
-
+  OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
   return string;
 }
 
-- 
2.43.0


From 44a3c156626c64be1f85632fbd15eed00573ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 56/88] fix: osl_pluto_unroll_sread reads factors above INT_MAX
 and accepts absent text

---
 source/extensions/pluto_unroll.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index 1a28c2f..5604f73 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -221,6 +221,13 @@ char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
  */
 osl_pluto_unroll_t* osl_pluto_unroll_sread(char** input) {
   osl_pluto_unroll_p p = NULL;
+  char* factor;
+
+  if ((input == NULL) || (*input == NULL)) {
+    OSL_debug("no pluto_unroll optional tag");
+    return NULL;
+  }
+
   if (osl_util_read_int(NULL, input) == 1) {
     p = osl_pluto_unroll_malloc();
   }
@@ -232,7 +239,12 @@ osl_pluto_unroll_t* osl_pluto_unroll_sread(char** input) {
     // jam
     p->jam = osl_util_read_int(NULL, input);
     // factor
-    p->factor = (unsigned int)osl_util_read_int(NULL, input);
+    factor = osl_util_read_string(NULL, input);
+    if ((factor == NULL) ||
+        (sscanf(factor, "%u", &p->factor) != 1)) {
+      OSL_error("an unroll factor was expected");
+    }
+    free(factor);
     // Next
     if (osl_util_read_int(NULL, input) == 1) {
       p->next = osl_pluto_unroll_malloc();
-- 
2.43.0


From aec395108219320f9ef84f9a958c08e8ffe0a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 57/88] fix: osl_symbols_sread reads texts of any length and
 refuses a negative count

---
 source/extensions/symbols.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 087d11c..9a33a4b 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -326,14 +326,13 @@ osl_symbols_t* osl_symbols_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("symbols too long");
-
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
 
   if (nb_symbols == 0)
     return NULL;
+  if (nb_symbols < 0)
+    OSL_error("negative number of symbols");
 
   head = symbols = osl_symbols_malloc();
   registry = osl_interface_get_default_registry();
-- 
2.43.0


From 8fed2a25549e877304e14058edfb5e79825a7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 58/88] fix: osl_symbols_equal compares every symbol of the
 lists

---
 source/extensions/symbols.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 9a33a4b..c3ae21c 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -499,26 +499,23 @@ osl_symbols_t* osl_symbols_clone(const osl_symbols_t* const symbols) {
  * \return 1 if c1 and c2 are the same (content-wise), 0 otherwise.
  */
 bool osl_symbols_equal(const osl_symbols_t* c1, const osl_symbols_t* c2) {
-  if (c1 == c2)
-    return 1;
-
-  if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
-    return 0;
-
-  if (c1->type == c2->type && c1->generated == c2->generated &&
-      c1->nb_dims == c2->nb_dims) {
-    if (osl_generic_equal(c1->identifier, c2->identifier)) {
-      if (osl_generic_equal(c1->datatype, c2->datatype)) {
-        if (osl_generic_equal(c1->scope, c2->scope)) {
-          if (osl_generic_equal(c1->extent, c2->extent)) {
-            return 1;
-          }
-        }
-      }
-    }
+  while ((c1 != NULL) && (c2 != NULL)) {
+    if (c1 == c2)
+      return 1;
+
+    if ((c1->type != c2->type) || (c1->generated != c2->generated) ||
+        (c1->nb_dims != c2->nb_dims) ||
+        !osl_generic_equal(c1->identifier, c2->identifier) ||
+        !osl_generic_equal(c1->datatype, c2->datatype) ||
+        !osl_generic_equal(c1->scope, c2->scope) ||
+        !osl_generic_equal(c1->extent, c2->extent))
+      return 0;
+
+    c1 = c1->next;
+    c2 = c2->next;
   }
 
-  return 0;
+  return c1 == c2;
 }
 
 /**
-- 
2.43.0


From db2523c689429a36f9eecf7ca6dbb539d1db5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 59/88] fix: osl_dependence_equal with an absent list

---
 source/extensions/dependence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 306a651..c0ce724 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -578,6 +578,9 @@ bool osl_dependence_equal(const osl_dependence_t* d1,
   if (d1 == d2)
     return 1;
 
+  if ((d1 == NULL) || (d2 == NULL))
+    return 0;
+
   if ((d1->next != NULL && d2->next == NULL) ||
       (d1->next == NULL && d2->next != NULL))
     return 0;
-- 
2.43.0


From 7d71281c4aaf4287fa47094f3b15f081586914e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 60/88] fix: osl_dependence_sprint does not end the program on
 an unknown type

---
 source/extensions/dependence.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index c0ce724..ddcf751 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -284,7 +284,8 @@ char* osl_dependence_sprint(const osl_dependence_t* const dependence) {
           type = "RAW_SCALPRIV #(scalar priv)";
           break;
         default:
-          exit(1);
+          OSL_warning("unknown type of dependence");
+          type = "UNSET";
           break;
       }
 
-- 
2.43.0


From 956676163f656dce85dbca72d0da869dce529a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 61/88] fix: osl_dependence_idump of dependences without
 statement pointers

---
 source/extensions/dependence.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index ddcf751..cee957d 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -79,6 +79,24 @@
  *                          Structure display function                         *
  *******************************************************************************/
 
+/**
+ * osl_dependence_idump_statement internal function:
+ * this function displays only the statement provided as parameter (possibly
+ * NULL), not those which follow it in its list.
+ */
+static void osl_dependence_idump_statement(FILE* const file,
+                                           const osl_statement_t* statement,
+                                           int level) {
+  osl_statement_t alone;
+
+  if (statement != NULL) {
+    alone = *statement;
+    alone.next = NULL;
+    statement = &alone;
+  }
+  osl_statement_idump(file, statement, level);
+}
+
 /**
  * osl_dependence_idump function:
  * Displays a osl_dependence_p structure (dependence) into a file (file,
@@ -91,7 +109,6 @@
 void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
                           int level) {
   int j, first = 1;
-  osl_statement_p tmp;
 
   if (dependence != NULL) { /* Go to the right level. */
     for (j = 0; j < level; j++)
@@ -175,19 +192,13 @@ void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Statement label: %d\n", dependence->label_source);
-    tmp = dependence->stmt_source_ptr->next;
-    dependence->stmt_source_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
-    dependence->stmt_source_ptr->next = tmp;
+    osl_dependence_idump_statement(file, dependence->stmt_source_ptr, level + 1);
 
     /* Print the target statement. */
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Target label: %d\n", dependence->label_target);
-    tmp = dependence->stmt_target_ptr->next;
-    dependence->stmt_target_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
-    dependence->stmt_target_ptr->next = tmp;
+    osl_dependence_idump_statement(file, dependence->stmt_target_ptr, level + 1);
 
     /* Print the dependence polyhedron. */
     for (j = 0; j <= level; j++)
-- 
2.43.0


From cb10129579e7d1d91a9fe8a07d3c2324052e5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 62/88] fix: osl_dependence_clone copies the access pointers,
 as the statement ones

---
 source/extensions/dependence.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index cee957d..fc92ceb 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -531,6 +531,8 @@ static osl_dependence_t* osl_dependence_nclone(const osl_dependence_t* dep,
     node = osl_dependence_malloc();
     node->stmt_source_ptr = dep->stmt_source_ptr;
     node->stmt_target_ptr = dep->stmt_target_ptr;
+    node->ref_source_access_ptr = dep->ref_source_access_ptr;
+    node->ref_target_access_ptr = dep->ref_target_access_ptr;
     node->depth = dep->depth;
     node->type = dep->type;
     node->label_source = dep->label_source;
-- 
2.43.0


From 4407b957c5699560229f0bce812c801a3456b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 63/88] fix: dependence rows of any length in
 osl_dependence_sread

---
 source/extensions/dependence.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index fc92ceb..e5bac6b 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -381,15 +381,16 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
   /* Read dimension information */
   osl_util_sskip_blank_and_comments(input);
   /* - make a copy of the first row */
-  char str[OSL_MAX_STRING];
+  char* str;
   size_t row_size = 0;
   char* tmp = *input;
   while ((*tmp != '\0') && (*tmp != '\n')) {
     tmp++;
     row_size += 1;
   }
-  strncpy(str, *input, sizeof(char) * row_size);
-  str[(tmp - *input)] = '\0';
+  OSL_malloc(str, char*, (row_size + 1) * sizeof(char));
+  memcpy(str, *input, sizeof(char) * row_size);
+  str[row_size] = '\0';
   /* - Read the information */
   int read = sscanf(str, " %d %d %d %d %d %d %d %d",
                     &dep->source_nb_output_dims_domain,
@@ -400,6 +401,7 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
                     &dep->source_nb_local_dims_access,
                     &dep->target_nb_local_dims_domain,
                     &dep->target_nb_local_dims_access);
+  free(str);
   *input = tmp;
   /* - Check we got what we want */
   if (read != 8) {
-- 
2.43.0


From 092ac2207a751502cad9db54f8367b6b2c5b5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 64/88] fix: osl_dependence_sread refuses a negative count and
 a missing type

---
 source/extensions/dependence.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index e5bac6b..094f8bb 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -351,6 +351,8 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
 
   /* Dependence type */
   buffer = osl_util_read_string(NULL, input);
+  if (buffer == NULL)
+    OSL_error("a type of dependence was expected");
   if (!strcmp(buffer, "RAW"))
     dep->type = OSL_DEPENDENCE_RAW;
   else if (!strcmp(buffer, "RAR"))
@@ -439,6 +441,8 @@ osl_dependence_t* osl_dependence_psread(char** input, int precision) {
   int i;
   /* Get the number of dependences. */
   int nbdeps = osl_util_read_int(NULL, input);
+  if (nbdeps < 0)
+    OSL_error("negative number of dependences");
 
   /* For each of them, read 1 and shift of the read size. */
   for (i = 0; i < nbdeps; i++) {
-- 
2.43.0


From 1c1ce256d407984a5fcff0d54302c22233493fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 65/88] fix: osl_irregular_clone wrote the predicates out of
 bounds instead of cloning them

---
 source/extensions/irregular.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 8fde9e1..eea4534 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -459,7 +459,7 @@ osl_irregular_t* osl_irregular_clone(const osl_irregular_t* irregular) {
     }
     for (j = 0; j < copy->nb_iterators[i]; j++)
       OSL_strdup(copy->iterators[i][j], irregular->iterators[i][j]);
-    OSL_strdup(copy->iterators[i][j], irregular->body[i]);
+    OSL_strdup(copy->body[i], irregular->body[i]);
   }
 
   return copy;
-- 
2.43.0


From daba75c8898528ee2b76eab0031d1162f284c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 66/88] fix: osl_irregular_equal compares the predicates of the
 statements

---
 source/extensions/irregular.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index eea4534..724721d 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -488,6 +488,11 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_statements) {
     comp = c1->nb_predicates[i] != c2->nb_predicates[i] ? 1 : 0;
+    j = 0;
+    while (comp == 0 && j < c1->nb_predicates[i]) {
+      comp = c1->predicates[i][j] != c2->predicates[i][j] ? 1 : 0;
+      j++;
+    }
     i++;
   }
   if (comp != 0)
@@ -495,11 +500,11 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
 
   i = 0;
   while (comp == 0 && i < c1->nb_control + c1->nb_exit) {
-    comp += c1->nb_iterators[i] != c2->nb_iterators[i] ? 1 : 0;
-    comp += strcmp(c1->body[i], c2->body[i]);
+    comp = (c1->nb_iterators[i] != c2->nb_iterators[i]) ||
+           (strcmp(c1->body[i], c2->body[i]) != 0);
     j = 0;
     while (comp == 0 && j < c1->nb_iterators[i]) {
-      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]);
+      comp = strcmp(c1->iterators[i][j], c2->iterators[i][j]);
       j++;
     }
     i++;
-- 
2.43.0


From fe6ec3b006f033f9c4a6b1c91dc4730b51b3a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 67/88] fix: osl_irregular_sprint read its arguments twice when
 its buffer was too small

---
 source/extensions/irregular.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 724721d..3b2a77e 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -154,9 +154,10 @@ static void
 printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
               ...) {
   va_list va;
-  va_start(va, fmt);
   do {
+    va_start(va, fmt);
     int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);
+    va_end(va);
     if (printed < 0)
       OSL_error(
           "snprintf encountered an error while writing inside a local buffer");
@@ -168,7 +169,6 @@ printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
     OSL_realloc(*buf, char*, *buf_size * 2);
     *buf_size *= 2;
   } while (1);
-  va_end(va);
 }
 
 /**
-- 
2.43.0


From 0ddaaa5d6a4241adfe1b067092f7bcb060bc965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 68/88] fix: osl_irregular_sprint does not print the tags,
 which the generic adds

---
 source/extensions/irregular.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 3b2a77e..3211e6b 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -189,14 +189,12 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
-    // Print the begin tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_START, &high_water_mark);
     size_t buf_offset = 0;
     size_t buf_size = OSL_MAX_STRING;
     OSL_malloc(buffer, char*, OSL_MAX_STRING * sizeof(char));
 
     // Print the content.
-    printf_in_buf(&buffer, &buf_size, &buf_offset, "\n%d\n",
+    printf_in_buf(&buffer, &buf_size, &buf_offset, "%d\n",
                   irregular->nb_statements);
     for (i = 0; i < irregular->nb_statements; i++) {
       printf_in_buf(&buffer, &buf_size, &buf_offset, "%d ",
@@ -234,10 +232,6 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
 
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    // Print the end tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_STOP "\n",
-                         &high_water_mark);
-
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
     free(buffer);
-- 
2.43.0


From 25e330d1f8d838a1b39434494ae08cf46df71d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 69/88] fix: osl_irregular_sread checks what it reads, keeps
 its input and passes it

---
 source/extensions/irregular.c | 90 +++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 41 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 3211e6b..cec412f 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -58,6 +58,7 @@
  *                                                                            *
  ******************************************************************************/
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -244,79 +245,86 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
  *                               Reading function                             *
  ******************************************************************************/
 
+/**
+ * osl_irregular_read_count internal function:
+ * this function reads a number of elements, which cannot be negative.
+ */
+static int osl_irregular_read_count(char** input) {
+  int count = osl_util_read_int(NULL, input);
+  if (count < 0)
+    OSL_error("negative number of elements in irregular");
+  return count;
+}
+
 /**
  * osl_irregular_sread function:
  * this function reads a irregular structure from a string complying to the
  * OpenScop textual format and returns a pointer to this irregular structure.
- * The string should contain only one textual format of a irregular structure.
- * \param  extensions The input string where to find a irregular structure.
+ * The input parameter is updated to the position in the input string this
+ * function reach right after reading the irregular structure.
+ * \param[in,out] input The input string where to find a irregular structure.
+ *                      Updated to the position after what has been read.
  * \return A pointer to the irregular structure that has been read.
  */
-osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
-  char *content, *tok;
-  int i, j;
+osl_irregular_t* osl_irregular_sread(char** input) {
+  int i, j, nb_predicates;
   osl_irregular_p irregular;
 
-  // FIXME: this is a quick and dirty thing to accept char ** instead
-  //        of char * in the parameter: really do it and update the
-  //        pointer to after what has been read.
-  content = *extensions_fixme;
-
-  if (content == NULL) {
+  if (*input == NULL) {
     OSL_debug("no irregular optional tag");
     return NULL;
   }
 
-  if (strlen(content) > OSL_MAX_STRING)
-    OSL_error("irregular too long");
-
   irregular = osl_irregular_malloc();
 
   // nb statements
-  tok = strtok(content, " \n");
-  irregular->nb_statements = atoi(tok);
+  irregular->nb_statements = osl_irregular_read_count(input);
   OSL_malloc(irregular->predicates, int**,
-             sizeof(int*) * irregular->nb_statements);
+             sizeof(int*) * (size_t)irregular->nb_statements);
   OSL_malloc(irregular->nb_predicates, int*,
-             sizeof(int) * irregular->nb_statements);
+             sizeof(int) * (size_t)irregular->nb_statements);
 
   // get predicats
   for (i = 0; i < irregular->nb_statements; i++) {
     // nb conditions
-    tok = strtok(NULL, " \n");
-    irregular->nb_predicates[i] = atoi(tok);
+    irregular->nb_predicates[i] = osl_irregular_read_count(input);
     OSL_malloc(irregular->predicates[i], int*,
-               sizeof(int) * irregular->nb_predicates[i]);
-    for (j = 0; j < irregular->nb_predicates[i]; j++) {
-      tok = strtok(NULL, " \n");
-      irregular->predicates[i][j] = atoi(tok);
-    }
+               sizeof(int) * (size_t)irregular->nb_predicates[i]);
+    for (j = 0; j < irregular->nb_predicates[i]; j++)
+      irregular->predicates[i][j] = osl_util_read_int(NULL, input);
   }
+
   // Get nb predicat
   // control and exits :
-  tok = strtok(NULL, " \n");
-  irregular->nb_control = atoi(tok);
-  tok = strtok(NULL, " \n");
-  irregular->nb_exit = atoi(tok);
-
-  int nb_predicates = irregular->nb_control + irregular->nb_exit;
-
-  OSL_malloc(irregular->iterators, char***, sizeof(char**) * nb_predicates);
-  OSL_malloc(irregular->nb_iterators, int*, sizeof(int) * nb_predicates);
-  OSL_malloc(irregular->body, char**, sizeof(char*) * nb_predicates);
+  irregular->nb_control = osl_irregular_read_count(input);
+  irregular->nb_exit = osl_irregular_read_count(input);
+  if (irregular->nb_control > INT_MAX - irregular->nb_exit)
+    OSL_error("too many predicates in irregular");
+  nb_predicates = irregular->nb_control + irregular->nb_exit;
+
+  OSL_malloc(irregular->iterators, char***,
+             sizeof(char**) * (size_t)nb_predicates);
+  OSL_malloc(irregular->nb_iterators, int*,
+             sizeof(int) * (size_t)nb_predicates);
+  OSL_malloc(irregular->body, char**, sizeof(char*) * (size_t)nb_predicates);
 
   for (i = 0; i < nb_predicates; i++) {
     // Get number of iterators
-    tok = strtok(NULL, " \n");
-    irregular->nb_iterators[i] = atoi(tok);
+    irregular->nb_iterators[i] = osl_irregular_read_count(input);
     OSL_malloc(irregular->iterators[i], char**,
-               sizeof(char*) * irregular->nb_iterators[i]);
+               sizeof(char*) * (size_t)irregular->nb_iterators[i]);
 
     // Get iterators
-    for (j = 0; j < irregular->nb_iterators[i]; j++)
-      OSL_strdup(irregular->iterators[i][j], strtok(NULL, " \n"));
+    for (j = 0; j < irregular->nb_iterators[i]; j++) {
+      irregular->iterators[i][j] = osl_util_read_string(NULL, input);
+      if (irregular->iterators[i][j] == NULL)
+        OSL_error("an iterator was expected in irregular");
+    }
+
     // Get predicat string
-    OSL_strdup(irregular->body[i], strtok(NULL, "\n"));
+    irregular->body[i] = osl_util_read_line(NULL, input);
+    if (irregular->body[i] == NULL)
+      OSL_error("a predicate was expected in irregular");
   }
 
   return irregular;
-- 
2.43.0


From affbc8195c64b15c2aeed7965bad7635c360d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 70/88] fix: tag names leaked when no generic is read

---
 source/generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 8e878c4..be7550d 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -264,6 +264,7 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   tag = osl_util_read_tag(NULL, input);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
@@ -306,6 +307,7 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   tag = osl_util_read_tag(file, NULL);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
-- 
2.43.0


From c478b4e5a60843e21f03992752159ea55c9d233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 71/88] fix: a missing end tag is an error instead of a null
 dereference

---
 source/generic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index be7550d..2e45405 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -269,6 +269,8 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   }
 
   content = osl_util_read_uptoendtag(NULL, input, tag);
+  if (content == NULL)
+    OSL_error("the end tag of a generic is missing");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -312,6 +314,8 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   }
 
   content = osl_util_read_uptoendtag(file, NULL, tag);
+  if (content == NULL)
+    OSL_error("the end tag of a generic is missing");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -344,6 +348,8 @@ osl_generic_t* osl_generic_read(FILE* const file,
   osl_generic_p generic_list;
 
   generic_string = osl_util_read_uptoendtag(file, NULL, OSL_URI_SCOP);
+  if (generic_string == NULL)
+    OSL_error("the end tag of the scop is missing");
   temp = generic_string;
   generic_list = osl_generic_sread(&temp, registry);
   free(generic_string);
-- 
2.43.0


From e4579f89e39f7531d3e6b61b02561e26b04fa186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 72/88] fix: cloning a generic cloned the whole list of
 interfaces which follow its own

---
 source/generic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/generic.c b/source/generic.c
index 2e45405..e685e1d 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -544,7 +544,7 @@ osl_generic_t* osl_generic_nclone(const osl_generic_t* generic, int n) {
   while ((generic != NULL) && (n > 0)) {
     if (generic->interface != NULL) {
       x = generic->interface->clone(generic->data);
-      interface = osl_interface_clone(generic->interface);
+      interface = osl_interface_nclone(generic->interface, 1);
       new = osl_generic_malloc();
       new->interface = interface;
       new->data = x;
-- 
2.43.0


From ec6ccc33c43bcf6700bc9117c4a42b45776ec5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 73/88] fix: osl_generic_add refuses every repeated URI

---
 source/generic.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/generic.c b/source/generic.c
index e685e1d..72433bc 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -369,7 +369,7 @@ osl_generic_t* osl_generic_read(FILE* const file,
  * \param[in] generic The generic list to add to the initial list.
  */
 void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
-  osl_generic_p tmp = *list, check;
+  osl_generic_p tmp = *list, check, other;
 
   if (generic != NULL) {
     // First, check that the generic list is OK.
@@ -379,8 +379,12 @@ void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
         OSL_error("no interface or URI in a generic to add to a list");
 
       // TODO: move this to the integrity check.
-      if (osl_generic_lookup(*list, check->interface->URI) != NULL)
-        OSL_error("only one generic with a given URI is allowed");
+      for (other = *list; other != NULL; other = other->next)
+        if (osl_generic_has_URI(other, check->interface->URI))
+          OSL_error("only one generic with a given URI is allowed");
+      for (other = generic; other != check; other = other->next)
+        if (osl_generic_has_URI(other, check->interface->URI))
+          OSL_error("only one generic with a given URI is allowed");
       check = check->next;
     }
 
-- 
2.43.0


From 582cec762eaecf2eb3567f30703c6ce325eb185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 74/88] fix: URI of any length in osl_generic_sprint

---
 source/generic.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/generic.c b/source/generic.c
index 72433bc..b68ad10 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -152,7 +152,6 @@ void osl_generic_dump(FILE* const file, const osl_generic_t* const generic) {
 char* osl_generic_sprint(const osl_generic_t* generic) {
   size_t high_water_mark = OSL_MAX_STRING;
   char *string = NULL, *content;
-  char buffer[OSL_MAX_STRING];
 
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
@@ -161,18 +160,21 @@ char* osl_generic_sprint(const osl_generic_t* generic) {
     if (generic->interface != NULL) {
       content = generic->interface->sprint(generic->data);
       if (content != NULL) {
-        sprintf(buffer, "<%s>\n", generic->interface->URI);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, "<", &high_water_mark);
+        osl_util_safe_strcat(&string, generic->interface->URI,
+                             &high_water_mark);
+        osl_util_safe_strcat(&string, ">\n", &high_water_mark);
         osl_util_safe_strcat(&string, content, &high_water_mark);
         free(content);
-        sprintf(buffer, "</%s>\n", generic->interface->URI);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, "</", &high_water_mark);
+        osl_util_safe_strcat(&string, generic->interface->URI,
+                             &high_water_mark);
+        osl_util_safe_strcat(&string, ">\n", &high_water_mark);
       }
     }
     generic = generic->next;
     if (generic != NULL) {
-      sprintf(buffer, "\n");
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
     }
   }
 
-- 
2.43.0


From 00c4cdfd6e9a25258538c3dab8bf9d5c5457a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 75/88] fix: osl_interface_equal compares every interface of
 the lists

---
 source/interface.c | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/source/interface.c b/source/interface.c
index 9e65bb9..ce4a040 100644
--- a/source/interface.c
+++ b/source/interface.c
@@ -311,26 +311,29 @@ osl_interface_t* osl_interface_clone(const osl_interface_t* const interface) {
  * \param interface2 The second interface structure.
  * \return 1 if interface1 and interface2 are the same, 0 otherwise.
  */
-bool osl_interface_equal(const osl_interface_t* const interface1,
-                         const osl_interface_t* const interface2) {
-  if (interface1 == interface2)
-    return 1;
-
-  if (((interface1 == NULL) && (interface2 != NULL)) ||
-      ((interface1 != NULL) && (interface2 == NULL)))
-    return 0;
-
-  if (strcmp(interface1->URI, interface2->URI) ||
-      (interface1->idump != interface2->idump) ||
-      (interface1->sprint != interface2->sprint) ||
-      (interface1->sread != interface2->sread) ||
-      (interface1->malloc != interface2->malloc) ||
-      (interface1->free != interface2->free) ||
-      (interface1->clone != interface2->clone) ||
-      (interface1->equal != interface2->equal))
-    return 0;
-
-  return 1;
+bool osl_interface_equal(const osl_interface_t* interface1,
+                         const osl_interface_t* interface2) {
+  while ((interface1 != NULL) && (interface2 != NULL)) {
+    if (interface1 == interface2)
+      return 1;
+
+    if (((interface1->URI == NULL) != (interface2->URI == NULL)) ||
+        ((interface1->URI != NULL) &&
+         strcmp(interface1->URI, interface2->URI)) ||
+        (interface1->idump != interface2->idump) ||
+        (interface1->sprint != interface2->sprint) ||
+        (interface1->sread != interface2->sread) ||
+        (interface1->malloc != interface2->malloc) ||
+        (interface1->free != interface2->free) ||
+        (interface1->clone != interface2->clone) ||
+        (interface1->equal != interface2->equal))
+      return 0;
+
+    interface1 = interface1->next;
+    interface2 = interface2->next;
+  }
+
+  return interface1 == interface2;
 }
 
 /**
-- 
2.43.0


From f7adb24bfa6aaf30777058eb26d772db204e6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 76/88] fix: osl_interface_add refuses a list with a repeated
 URI

---
 source/interface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interface.c b/source/interface.c
index ce4a040..7a8de36 100644
--- a/source/interface.c
+++ b/source/interface.c
@@ -180,7 +180,9 @@ void osl_interface_add(osl_interface_t** list, osl_interface_t* interface) {
       if (check_interface->URI == NULL)
         OSL_error("no URI in an interface to add to a list");
 
-      if (osl_interface_lookup(*list, check_interface->URI) != NULL)
+      if ((osl_interface_lookup(*list, check_interface->URI) != NULL) ||
+          (osl_interface_lookup(interface, check_interface->URI) !=
+           check_interface))
         OSL_error("only one interface with a given URI is allowed");
       check_interface = check_interface->next;
     }
-- 
2.43.0


From 8117b600c0f999f03b1c78ea463ce84fcc42d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 77/88] fix: osl_statement_equal with an absent list

---
 source/statement.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/statement.c b/source/statement.c
index 6cf7ada..e79133c 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -671,6 +671,11 @@ int osl_statement_equal(const osl_statement_t* const s1,
   if (s1 == s2)
     return 1;
 
+  if ((s1 == NULL) || (s2 == NULL)) {
+    OSL_info("statements are not the same (compare with NULL)");
+    return 0;
+  }
+
   if (((s1->next != NULL) && (s2->next == NULL)) ||
       ((s1->next == NULL) && (s2->next != NULL))) {
     OSL_info("statements are not the same");
-- 
2.43.0


From a075fd19a89ca31ee5086568509865e3322b19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 78/88] fix: osl_scop_equal with an absent language

---
 source/scop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index 225c232..39cdf49 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -709,7 +709,9 @@ bool osl_scop_equal(const osl_scop_t* s1, const osl_scop_t* s2) {
       return 0;
     }
 
-    if (strcmp(s1->language, s2->language) != 0) {
+    if ((s1->language != s2->language) &&
+        ((s1->language == NULL) || (s2->language == NULL) ||
+         (strcmp(s1->language, s2->language) != 0))) {
       OSL_info("languages are not the same");
       return 0;
     }
-- 
2.43.0


From 65286f34051372af439944c8ecdfce3076c78126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 79/88] fix: osl_vector_equal with an absent vector

---
 source/vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/vector.c b/source/vector.c
index 7bce599..b456811 100644
--- a/source/vector.c
+++ b/source/vector.c
@@ -319,6 +319,9 @@ int osl_vector_equal(const osl_vector_t* const v1,
   if (v1 == v2)
     return 1;
 
+  if ((v1 == NULL) || (v2 == NULL))
+    return 0;
+
   if ((v1->size != v2->size) || (v1->precision != v2->precision))
     return 0;
 
-- 
2.43.0


From 5a8ca27c41e98ed74ff5bcd3a901e2d748f33b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 80/88] fix: reading an empty relation list returns an empty
 list

---
 source/relation_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/relation_list.c b/source/relation_list.c
index 4255793..40585c6 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -338,6 +338,8 @@ osl_relation_list_t* osl_relation_list_pread(FILE* const file, int precision) {
 
   if (nb_mat < 0)
     OSL_error("negative number of relations");
+  if (nb_mat == 0)
+    return NULL;
 
   // Allocate the header of the list and start reading each element.
   res = list = osl_relation_list_malloc();
-- 
2.43.0


From f6ab79783806ee3f62207511f7f696cd8ab93722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 81/88] fix: SCoPLib compatibility check of absent scops,
 domains and scatterings

---
 source/scop.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 39cdf49..2d47a1e 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -801,7 +801,7 @@ int osl_scop_integrity_check(const osl_scop_t* scop) {
 int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
   if (!osl_scop_integrity_check(scop))
     return 0;
-  if (scop->next != NULL)
+  if (scop != NULL && scop->next != NULL)
     return 0;
   if (scop == NULL || scop->statement == NULL)
     return 1;
@@ -809,13 +809,17 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
   osl_relation_p domain;
   osl_statement_p statement;
   osl_relation_p scattering;
-  int precision = scop->statement->scattering->precision;
   int i, j;
 
   statement = scop->statement;
   while (statement != NULL) {
     scattering = statement->scattering;
 
+    if (scattering == NULL || statement->domain == NULL) {
+      OSL_error("No domain or scattering matrix");
+      return 0;
+    }
+
     if (scattering->nb_local_dims != 0) {
       OSL_error("Local dims in scattering matrix");
       return 0;
@@ -835,12 +839,12 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
     for (i = 0; i < scattering->nb_rows; i++) {
       for (j = 0; j < scattering->nb_output_dims; j++) {
         if (i == j) {  // -1
-          if (!osl_int_mone(precision, scattering->m[i][j + 1])) {
+          if (!osl_int_mone(scattering->precision, scattering->m[i][j + 1])) {
             OSL_error("Wrong -Identity");
             return 0;
           }
         } else {  // 0
-          if (!osl_int_zero(precision, scattering->m[i][j + 1])) {
+          if (!osl_int_zero(scattering->precision, scattering->m[i][j + 1])) {
             OSL_error("Wrong -Identity");
             return 0;
           }
-- 
2.43.0


From fe336b86bb7b57341b5a227de87d3b458cefd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 82/88] fix: osl_scop_register_extension reads the textual form
 of the extensions

---
 source/scop.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 2d47a1e..73a5548 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -883,15 +883,16 @@ int osl_scop_get_nb_parameters(const osl_scop_t* scop) {
  * \param interface The extension interface to register within the scop.
  */
 void osl_scop_register_extension(osl_scop_t* scop, osl_interface_t* interface) {
-  osl_generic_p textual, new;
+  osl_textual_p textual;
+  osl_generic_p new;
   char* extension_string;
 
   if ((interface != NULL) && (scop != NULL)) {
     osl_interface_add(&scop->registry, interface);
 
-    textual = osl_generic_lookup(scop->extension, interface->URI);
-    if (textual != NULL) {
-      extension_string = ((osl_textual_p)textual->data)->textual;
+    textual = osl_generic_lookup(scop->extension, OSL_URI_TEXTUAL);
+    if ((textual != NULL) && (textual->textual != NULL)) {
+      extension_string = textual->textual;
       new = osl_generic_sread(&extension_string, interface);
       osl_generic_add(&scop->extension, new);
     }
-- 
2.43.0


From cbb0a9a9f524aa3dccf4e07d4d33b72edc952cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 83/88] fix: the number of statement extensions is the number
 of those printed

---
 source/statement.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/source/statement.c b/source/statement.c
index e79133c..8de0315 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -180,6 +180,28 @@ osl_names_t* osl_statement_names(const osl_statement_t* statement) {
                             nb_scattdims, "l", nb_localdims, "A", array_id);
 }
 
+/**
+ * osl_statement_printed_extensions internal function:
+ * this function returns the number of extensions of a list which have a
+ * textual form (osl_generic_print ignores the others).
+ * \param[in] generic The list of extensions.
+ * \return The number of extensions which are printed.
+ */
+static int osl_statement_printed_extensions(const osl_generic_t* generic) {
+  int number = 0;
+  char* string;
+
+  for (; generic != NULL; generic = generic->next) {
+    if (generic->interface != NULL) {
+      string = generic->interface->sprint(generic->data);
+      if (string != NULL)
+        number++;
+      free(string);
+    }
+  }
+  return number;
+}
+
 /**
  * osl_statement_pprint function:
  * this function pretty-prints the content of an osl_statement_t structure
@@ -248,7 +270,7 @@ void osl_statement_pprint(FILE* const file, const osl_statement_t* statement,
     fprintf(file, "# ---------------------------------------------- ");
     fprintf(file, "%2d.4 Statement Extensions\n", number);
     fprintf(file, "# Number of Statement Extensions\n");
-    nb_ext = osl_generic_number(statement->extension);
+    nb_ext = osl_statement_printed_extensions(statement->extension);
     fprintf(file, "%d\n", nb_ext);
     if (nb_ext > 0)
       osl_generic_print(file, statement->extension);
-- 
2.43.0


From 8fab26355afe7387f2f8c1204b443fee864e9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 84/88] fix: reading a comment drops the newline that printing
 adds after its tag

---
 source/extensions/comment.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 387c553..167c226 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -170,6 +170,7 @@ char* osl_comment_sprint(const osl_comment_t* const comment) {
  */
 osl_comment_t* osl_comment_sread(char** input) {
   osl_comment_p comment;
+  char* start;
 
   if (*input == NULL) {
     OSL_debug("no comment optional tag");
@@ -178,7 +179,13 @@ osl_comment_t* osl_comment_sread(char** input) {
 
   // Build the comment structure
   comment = osl_comment_malloc();
-  OSL_strdup(comment->comment, *input);
+  start = *input;
+
+  // Pass the carriage returns (this allows to remove those inserted by
+  // osl_generic_print), and copy the comment.
+  while (*start == '\n')
+    start++;
+  OSL_strdup(comment->comment, start);
 
   // Update the input pointer (everything has been read).
   *input += strlen(*input);
-- 
2.43.0


From 24d2973c1746933531c56c598f862e1e7364a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 85/88] fix: comparing comments without text does not read
 through a null pointer

---
 source/extensions/comment.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 167c226..7c426a3 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -269,12 +269,8 @@ bool osl_comment_equal(const osl_comment_t* const c1,
     return 0;
   }
 
-  if (strcmp(c1->comment, c2->comment)) {
-    // Well, the test does not apply well on textual content but the idea
-    // is here (see osl_generic_sprint if you want to understand the problem).
-    // OSL_info("comments are not the same");
-    // return 0;
-  }
+  // Well, a test of the textual content does not apply well here
+  // (see osl_generic_sprint if you want to understand the problem).
 
   return 1;
 }
-- 
2.43.0


From 6ae0cee07795ba23bd2ac645d68c89eb78b73a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 86/88] fix: dumping a comment, clay script or textual
 extension without text

Their malloc functions leave the text NULL, which the idump functions
duplicated without looking.
---
 source/extensions/clay.c    | 2 +-
 source/extensions/comment.c | 2 +-
 source/extensions/textual.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index c7c09a7..a5eb091 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -102,7 +102,7 @@ void osl_clay_idump(FILE* const file, const osl_clay_t* const clay, int level) {
       fprintf(file, "|\t");
 
     // Display the clay script (without any carriage return).
-    OSL_strdup(tmp, clay->script);
+    OSL_strdup(tmp, (clay->script != NULL ? clay->script : "(null)"));
     for (l = 0; l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 7c426a3..835db08 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -103,7 +103,7 @@ void osl_comment_idump(FILE* const file, const osl_comment_t* const comment,
       fprintf(file, "|\t");
 
     // Display the comment message (without any carriage return).
-    OSL_strdup(tmp, comment->comment);
+    OSL_strdup(tmp, (comment->comment != NULL ? comment->comment : "(null)"));
     for (l = 0; l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
diff --git a/source/extensions/textual.c b/source/extensions/textual.c
index 1c6782d..e12c3ea 100644
--- a/source/extensions/textual.c
+++ b/source/extensions/textual.c
@@ -97,7 +97,7 @@ void osl_textual_idump(FILE* const file, const osl_textual_t* const textual,
     fprintf(file, "+-- osl_textual_t: ");
 
     // Display the textual message (without any carriage return).
-    OSL_strdup(tmp, textual->textual);
+    OSL_strdup(tmp, (textual->textual != NULL ? textual->textual : "(null)"));
     for (j = 0; j < (int)strlen(tmp); j++)
       if (tmp[j] == '\n')
         tmp[j] = ' ';
-- 
2.43.0


From b82102aa9ae90986f27ce05c930947819cbb67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 87/88] fix: osl_body_sread returns NULL when there is no text,
 as its siblings do

---
 source/body.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/body.c b/source/body.c
index 701df30..65be34b 100644
--- a/source/body.c
+++ b/source/body.c
@@ -241,7 +241,7 @@ osl_body_t* osl_body_sread(char** input) {
   char* expression;
   int nb_iterators;
 
-  if (input) {
+  if (input && *input) {
     body = osl_body_malloc();
 
     // Read the number of iterators.
-- 
2.43.0


From 7fcbe86a75513b4c793164d806b442507635f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 88/88] fix: no fake iterator in the SCoPLib export of a
 statement which has iterators

---
 source/statement.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/statement.c b/source/statement.c
index 8de0315..c467f9d 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -325,8 +325,9 @@ void osl_statement_pprint_scoplib(FILE* const file,
       names->iterators = body->iterators;
     }
 
-    add_fakeiter =
-        statement->domain->nb_rows == 0 && statement->scattering->nb_rows == 1;
+    add_fakeiter = statement->domain->nb_output_dims == 0 &&
+                   statement->domain->nb_rows == 0 &&
+                   statement->scattering->nb_rows == 1;
 
     fprintf(file, "# =============================================== ");
     fprintf(file, "Statement %d\n", number);
-- 
2.43.0

