From 99043a1e170615316aa3ca177465e0591988926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 01/55] fix: initialize multiple precision integers in
 osl_int_init_set_long(_long)

---
 source/int.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/source/int.c b/source/int.c
index 24c3773..c7c0055 100644
--- a/source/int.c
+++ b/source/int.c
@@ -489,11 +489,7 @@ void osl_int_init_set_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long(const int precision, osl_int_t* const variable,
                            const long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long(precision, variable, i);
 }
 
@@ -505,11 +501,7 @@ void osl_int_init_set_long(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long_long(const int precision, osl_int_t* const variable,
                                 const long long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long_long(precision, variable, i);
 }
 
-- 
2.43.0


From 2adfc79de5f59ae335112f563d49ba2fea2d235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 02/55] fix: keep the whole value when changing the precision
 of an integer

---
 source/int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/int.c b/source/int.c
index c7c0055..8af2480 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1616,8 +1616,8 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
 void osl_int_set_precision(const int precision, const int new_precision,
                            osl_int_t* const i) {
   if (i != NULL && precision != new_precision) {
-    int v = osl_int_get_si(precision, *i);  // TODO Fix to avoid overflow
+    long long int v = osl_int_get_long_long(precision, *i);
     osl_int_clear(precision, i);
-    osl_int_init_set_si(new_precision, i, v);
+    osl_int_init_set_long_long(new_precision, i, v);
   }
 }
-- 
2.43.0


From 5ebfa594c519cd2df67f0486b2e3fd38fcae6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 03/55] fix: read integers up to the end of the token and
 refuse those out of range

---
 source/int.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/source/int.c b/source/int.c
index 8af2480..1335c9d 100644
--- a/source/int.c
+++ b/source/int.c
@@ -58,6 +58,8 @@
  *                                                                            *
  ******************************************************************************/
 
+#include <ctype.h>
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -673,14 +675,23 @@ void osl_int_sprint_txt(char* const string, const int precision,
 int osl_int_sscanf(const char* const string, const int precision,
                    osl_int_t* const i) {
   int nb_read = 0;
+  char* end;
 
   switch (precision) {
     case OSL_PRECISION_SP:
-      nb_read = sscanf(string, OSL_FMT_TXT_SP, &(i->sp));
+      errno = 0;
+      i->sp = strtol(string, &end, 10);
+      nb_read = (end != string);
+      if (errno == ERANGE)
+        OSL_overflow("osl_int_sscanf overflow");
       break;
 
     case OSL_PRECISION_DP:
-      nb_read = sscanf(string, OSL_FMT_TXT_DP, &(i->dp));
+      errno = 0;
+      i->dp = strtoll(string, &end, 10);
+      nb_read = (end != string);
+      if (errno == ERANGE)
+        OSL_overflow("osl_int_sscanf overflow");
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -694,7 +705,7 @@ int osl_int_sscanf(const char* const string, const int precision,
       OSL_error("unknown precision");
   }
 
-  if (nb_read == 0) {
+  if (nb_read != 1) {
     OSL_error("failed to read an integer");
   }
 
@@ -708,8 +719,15 @@ int osl_int_sscanf(const char* const string, const int precision,
  * \param[in] i         A osl int to save integer
  */
 void osl_int_sread(char** string, const int precision, osl_int_t* const i) {
-  // Update the position in the input string.
-  *string += osl_int_sscanf(*string, precision, i);
+  osl_int_sscanf(*string, precision, i);
+
+  // Update the position in the input string: blanks, sign and digits.
+  while (isspace((unsigned char)**string))
+    (*string)++;
+  if (**string == '-' || **string == '+')
+    (*string)++;
+  while (isdigit((unsigned char)**string))
+    (*string)++;
 }
 
 /******************************************************************************
-- 
2.43.0


From 96de4f2fb57628c2daab03f650c83a83a7a43e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 04/55] fix: detect overflows at the limits of fixed precision
 integers

---
 source/int.c | 137 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 93 insertions(+), 44 deletions(-)

diff --git a/source/int.c b/source/int.c
index 1335c9d..aad5037 100644
--- a/source/int.c
+++ b/source/int.c
@@ -72,6 +72,8 @@
 #include <osl/macros.h>
 
 static long long int llgcd(long long int, long long int);
+static int llmul_overflow(long long int, long long int, long long int,
+                          long long int);
 static size_t lllog2(long long int);
 static size_t lllog10(long long int);
 
@@ -772,7 +774,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LONG_MAX - val1.sp < val2.sp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.sp - LONG_MIN < -val2.sp)
+        if (LONG_MIN - val1.sp > val2.sp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -785,7 +787,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - val1.dp < val2.dp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.dp - LLONG_MIN < -val2.dp)
+        if (LLONG_MIN - val1.dp > val2.dp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -819,7 +821,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LONG_MAX - value.sp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.sp - LONG_MIN < -i)
+        if (LONG_MIN - value.sp > i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
@@ -832,7 +834,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - value.dp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.dp - LLONG_MIN < -i)
+        if (LLONG_MIN - value.dp > i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
@@ -869,13 +871,32 @@ void osl_int_sub(const int precision, osl_int_t* const variable,
   } else
 #endif
   {
-    osl_int_t mval2;
+    osl_int_t mval1, mval2;
+    osl_int_init(precision, &mval1);
     osl_int_init(precision, &mval2);
-    osl_int_oppose(precision, &mval2, val2);
-    osl_int_add(precision, variable, val1, mval2);
+    osl_int_assign(precision, &mval1, val1);
+    osl_int_assign(precision, &mval2, val2);
+    // The opposite of the minimum value does not exist: val1 - val2 is
+    // computed as (val1 + 1) - (val2 + 1), which is safe for negative values.
+    if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
+      osl_int_increment(precision, &mval1, mval1);
+      osl_int_increment(precision, &mval2, mval2);
+    }
+    osl_int_oppose(precision, &mval2, mval2);
+    osl_int_add(precision, variable, mval1, mval2);
   }
 }
 
+// 1 if a * b is not in [min, max] (with min < 0 < max), 0 otherwise
+int llmul_overflow(const long long int a, const long long int b,
+                   const long long int min, const long long int max) {
+  if (a > 0)
+    return (b > 0) ? a > max / b : b < min / a;
+  if (a < 0)
+    return (b > 0) ? a < min / b : b < max / a;
+  return 0;
+}
+
 /**
  * \brief variable = val1 * val2
  * \param[in] precision Precision of the osl int
@@ -887,25 +908,19 @@ void osl_int_mul(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = val1.sp * val2.sp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->sp / val2.sp != val1.sp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflow(val1.sp, val2.sp, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->sp = val1.sp * val2.sp;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = val1.dp * val2.dp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->dp / val2.dp != val1.dp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflow(val1.dp, val2.dp, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->dp = val1.dp * val2.dp;
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -930,25 +945,19 @@ void osl_int_mul_si(const int precision, osl_int_t* const variable,
                     const osl_int_t value, const int i) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = value.sp * (long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->sp / (long int)i != value.sp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflow(value.sp, i, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->sp = value.sp * (long int)i;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = value.dp * (long long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->dp / (long long int)i != value.dp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflow(value.dp, i, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->dp = value.dp * (long long int)i;
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -974,10 +983,18 @@ void osl_int_div_exact(const int precision, osl_int_t* const q,
                        const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->sp = a.sp / b.sp;
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->dp = a.dp / b.dp;
       return;
 
@@ -1003,6 +1020,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->sp = a.sp / b.sp;
       if (q->sp < 0) {
         if (a.sp % b.sp != 0)
@@ -1016,6 +1037,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->dp = a.dp / b.dp;
       if (q->dp < 0) {
         if (a.dp % b.dp != 0)
@@ -1050,11 +1075,19 @@ void osl_int_floor_div_r(const int precision, osl_int_t* const r,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+      if (b.sp == -1) {
+        r->sp = 0;  // the quotient may not be representable.
+        return;
+      }
       osl_int_floor_div_q(precision, r, a, b);
       r->sp = a.sp - r->sp * b.sp;
       return;
 
     case OSL_PRECISION_DP:
+      if (b.dp == -1) {
+        r->dp = 0;  // the quotient may not be representable.
+        return;
+      }
       osl_int_floor_div_q(precision, r, a, b);
       r->dp = a.dp - r->dp * b.dp;
       return;
@@ -1115,15 +1148,15 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      mod->sp = a.sp % b.sp;
+      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
       if (mod->sp < 0)
-        mod->sp += labs(b.sp);
+        mod->sp = (b.sp < 0) ? mod->sp - b.sp : mod->sp + b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      mod->dp = a.dp % b.dp;
+      mod->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
       if (mod->dp < 0)
-        mod->dp += llabs(b.dp);
+        mod->dp = (b.dp < 0) ? mod->dp - b.dp : mod->dp + b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1139,6 +1172,8 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
 
 // gcd (greatest common divisor) for long long int
 long long int llgcd(const long long int a, const long long int b) {
+  if (b == -1)
+    return 1;  // avoids the overflow of LLONG_MIN % -1.
   return (b ? llgcd(b, a % b) : a);
 }
 
@@ -1153,11 +1188,13 @@ void osl_int_gcd(const int precision, osl_int_t* gcd, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      gcd->sp = labs(llgcd(a.sp, b.sp));
+      gcd->sp = llgcd(a.sp, b.sp);
+      osl_int_abs(precision, gcd, *gcd);
       return;
 
     case OSL_PRECISION_DP:
-      gcd->dp = llabs(llgcd(a.dp, b.dp));
+      gcd->dp = llgcd(a.dp, b.dp);
+      osl_int_abs(precision, gcd, *gcd);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1214,10 +1251,18 @@ void osl_int_oppose(const int precision, osl_int_t* const variable,
                     const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->sp = -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->dp = -value.dp;
       break;
 
@@ -1242,10 +1287,18 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
                  const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->sp = (value.sp > 0) ? value.sp : -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->dp = (value.dp > 0) ? value.dp : -value.dp;
       break;
 
@@ -1264,10 +1317,8 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
 size_t lllog2(long long int x) {
   size_t n = 0;
 
-  x = llabs(x);
-
   while (x) {
-    x >>= 1;
+    x /= 2;
     ++n;
   }
 
@@ -1302,8 +1353,6 @@ size_t osl_int_size_in_base_2(const int precision, const osl_int_t value) {
 size_t lllog10(long long int x) {
   size_t n = 0;
 
-  x = llabs(x);
-
   while (x) {
     x /= 10;
     ++n;
@@ -1606,10 +1655,10 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
                       const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      return ((val1.sp % val2.sp) == 0);
+      return (val2.sp == -1) || ((val1.sp % val2.sp) == 0);
 
     case OSL_PRECISION_DP:
-      return ((val1.dp % val2.dp) == 0);
+      return (val2.dp == -1) || ((val1.dp % val2.dp) == 0);
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP:
-- 
2.43.0


From 4114fd4d8a5c6afbc6aa26c8b4413d95a0fb34bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 05/55] fix: set the type of every union part when reading a
 relation from a string

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 426343f..ccd9f52 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1428,7 +1428,7 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
 
   type = osl_relation_read_type(NULL, input);
   relation = osl_relation_psread_polylib(input, precision);
-  relation->type = type;
+  osl_relation_set_type(relation, type);
 
   return relation;
 }
-- 
2.43.0


From 1cfa9e100f0f6d64665a829ec2bfc3fdf157852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 06/55] fix: refuse relations with missing rows or columns at
 the end of a line or of the input

---
 source/relation.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index ccd9f52..09be43c 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1352,6 +1352,8 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
       // Read relation attributes.
       c = osl_util_skip_blank_and_comments(foo, s);
+      if (c == NULL)
+        OSL_error("not enough union parts");
       read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
@@ -1390,8 +1392,8 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
       for (j = 0; j < relation->nb_columns; j++) {
         if (c == NULL || *c == '#' || *c == '\n')
           OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
+        if (sscanf(c, "%s%n", str, &n) != 1)
+          OSL_error("not enough columns");
 
         // TODO: remove this tmp (sread updates the pointer).
         tmp = str;
@@ -1469,8 +1471,10 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
         tmp++;
         row_size += 1;
       }
+      if (row_size >= OSL_MAX_STRING)
+        row_size = OSL_MAX_STRING - 1;
       strncpy(str, *input, sizeof(char) * row_size);
-      str[(tmp - *input)] = '\0';
+      str[row_size] = '\0';
 
       read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
@@ -1508,10 +1512,12 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
         OSL_error("not enough rows");
 
       for (j = 0; j < relation->nb_columns; j++) {
-        if (*input == NULL || **input == '#' || **input == '\n')
+        while (**input != '\n' && isspace((unsigned char)**input))
+          (*input)++;
+        if (**input == '#' || **input == '\n')
+          OSL_error("not enough columns");
+        if (sscanf(*input, "%s%n", str, &n) != 1)
           OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
 
         // TODO: remove this tmp (sread updates the pointer).
         tmp = str;
-- 
2.43.0


From 7523321ffa82fa6fe0386856ddcde4396c985460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 07/55] fix: refuse or stop at the end of file in the reading
 utilities

---
 source/util.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/util.c b/source/util.c
index 9e08028..43274bf 100644
--- a/source/util.c
+++ b/source/util.c
@@ -140,7 +140,7 @@ int osl_util_read_int(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %d", &res) != 1)
+    if (start == NULL || sscanf(start, " %d", &res) != 1)
       OSL_error("an int was expected");
   } else {
     // Parse from a string.
@@ -180,7 +180,7 @@ char* osl_util_read_string(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %s", res) != 1)
+    if (start == NULL || sscanf(start, " %s", res) != 1)
       OSL_error("a string was expected");
   } else {
     // Parse from a string.
@@ -223,12 +223,13 @@ char* osl_util_read_line(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
+    while (start && *start && *start != '\n' && *start != '#' &&
+           i < OSL_MAX_STRING - 1)
       res[i++] = *start++;
   } else {
     // Parse from a string.
     osl_util_sskip_blank_and_comments(str);
-    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING)
+    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING - 1)
       res[i++] = *((*str)++);
   }
 
@@ -268,7 +269,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
   }
 
   // If the end of the input has been reached, return NULL.
-  if (((file != NULL) && (feof(file))) || ((str != NULL) && (**str == '\0')))
+  if ((*str == NULL) || (**str == '\0'))
     return NULL;
 
   // Pass the starting '<'.
-- 
2.43.0


From d89397bafe3f5cf2e84b8c2d9f1b3460beea3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 08/55] fix: return the whole content of a tag in
 osl_util_tag_content

---
 source/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index 43274bf..31a9117 100644
--- a/source/util.c
+++ b/source/util.c
@@ -439,7 +439,7 @@ char* osl_util_tag_content(const char* str, const char* name) {
     OSL_malloc(res, char*, (size + 1) * sizeof(char));
 
     // Copy the chain between the two tags.
-    for (++start, i = 0; start != stop; ++start, ++i)
+    for (i = 0; start != stop; ++start, ++i)
       res[i] = *start;
     res[i] = '\0';
   }
-- 
2.43.0


From bab29ff647550df17a11835dac04dbcae0be3962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 09/55] fix: generate an empty array of strings for null or
 negative sizes

---
 source/strings.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 6885b3a..5356e41 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -460,15 +460,17 @@ osl_strings_t* osl_strings_generate(const char* prefix, int nb_strings) {
   int i;
   osl_strings_p generated;
 
-  if (nb_strings) {
-    OSL_malloc(strings, char**, sizeof(char*) * (size_t)(nb_strings + 1));
-    strings[nb_strings] = NULL;
-    for (i = 0; i < nb_strings; i++) {
-      sprintf(buff, "%s%d", prefix, i + 1);
-      OSL_strdup(strings[i], buff);
-      if (strings[i] == NULL)
-        OSL_error("memory overflow");
-    }
+  // A negative number of strings (e.g., an undefined attribute) means none.
+  if (nb_strings < 0)
+    nb_strings = 0;
+
+  OSL_malloc(strings, char**, sizeof(char*) * (size_t)(nb_strings + 1));
+  strings[nb_strings] = NULL;
+  for (i = 0; i < nb_strings; i++) {
+    sprintf(buff, "%s%d", prefix, i + 1);
+    OSL_strdup(strings[i], buff);
+    if (strings[i] == NULL)
+      OSL_error("memory overflow");
   }
 
   generated = osl_strings_malloc();
-- 
2.43.0


From ecaae31514b9544fd22d711f586e8ef3884488ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 10/55] fix: read strings separated or followed by several
 blanks

---
 source/strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 5356e41..9295b30 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -183,7 +183,6 @@ void osl_strings_print(FILE* const file, const osl_strings_t* const strings) {
  * \return A pointer to the strings structure that has been read.
  */
 osl_strings_t* osl_strings_sread(char** const input) {
-  char tmp[OSL_MAX_STRING];
   char* s;
   char** string = NULL;
   size_t i, nb_strings;
@@ -217,16 +216,17 @@ osl_strings_t* osl_strings_sread(char** const input) {
     // Read the desired number of strings.
     s = *input;
     for (i = 0; i < nb_strings; i++) {
+      while (isspace(*s))
+        s++;
       for (count = 0; *s && !isspace(*s) && *s != '#'; count++)
-        tmp[count] = *(s++);
-      tmp[count] = '\0';
-      OSL_strdup(string[i], tmp);
-      if (*s != '#')
         s++;
+      OSL_malloc(string[i], char*, ((size_t)count + 1) * sizeof(char));
+      memcpy(string[i], s - count, (size_t)count);
+      string[i][count] = '\0';
     }
 
     // Update the input pointer to the end of the strings structure.
-    *input = s;
+    *input = (*s && *s != '#') ? s + 1 : s;
 
     // Build the strings structure
     strings = osl_strings_malloc();
-- 
2.43.0


From 7c4b687d09c23f2ca515b50fecc1041a54c683b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 11/55] fix: print strings of any length

---
 source/strings.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 9295b30..2db9461 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -134,8 +134,7 @@ char* osl_strings_sprint(const osl_strings_t* strings) {
 
   if (strings != NULL) {
     for (i = 0; i < osl_strings_size(strings); i++) {
-      sprintf(buffer, "%s", strings->string[i]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, strings->string[i], &high_water_mark);
       if (i < osl_strings_size(strings) - 1)
         osl_util_safe_strcat(&string, " ", &high_water_mark);
     }
-- 
2.43.0


From 85ccd0bb138913e32f31d244c88a199bfb5d55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 12/55] fix: print relations whose columns cannot be named
 without comments

---
 source/relation.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 09be43c..d32a508 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -349,6 +349,32 @@ char** osl_relation_strings(const osl_relation_t* relation,
     return NULL;
   }
 
+  // The columns can be named only if they are described by the attributes
+  // and if there are enough names.
+  if (relation->nb_output_dims < 0 || relation->nb_input_dims < 0 ||
+      relation->nb_local_dims < 0 || relation->nb_parameters < 0 ||
+      relation->nb_columns != relation->nb_output_dims +
+                                  relation->nb_input_dims +
+                                  relation->nb_local_dims +
+                                  relation->nb_parameters + 2 ||
+      relation->nb_input_dims > (int)osl_strings_size(names->iterators) ||
+      relation->nb_local_dims > (int)osl_strings_size(names->local_dims) ||
+      relation->nb_parameters > (int)osl_strings_size(names->parameters)) {
+    OSL_debug("not possible to name the columns of the relation");
+    return NULL;
+  }
+
+  if (!osl_relation_is_access(relation)) {
+    const osl_strings_t* output_names = (relation->type == OSL_TYPE_DOMAIN ||
+                                         relation->type == OSL_TYPE_CONTEXT)
+                                            ? names->iterators
+                                            : names->scatt_dims;
+    if (relation->nb_output_dims > (int)osl_strings_size(output_names)) {
+      OSL_debug("not possible to name the columns of the relation");
+      return NULL;
+    }
+  }
+
   OSL_malloc(strings, char**,
              ((size_t)relation->nb_columns + 1) * sizeof(char*));
   strings[relation->nb_columns] = NULL;
@@ -360,7 +386,8 @@ char** osl_relation_strings(const osl_relation_t* relation,
   // 2. Output dimensions.
   if (osl_relation_is_access(relation)) {
     // The first output dimension is the array name.
-    OSL_strdup(strings[offset], "Arr");
+    if (relation->nb_output_dims > 0)
+      OSL_strdup(strings[offset], "Arr");
     // The other ones are the array dimensions [1]...[n]
     for (i = offset + 1; i < relation->nb_output_dims + offset; i++) {
       sprintf(temp, "[%d]", i - 1);
@@ -833,7 +860,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
              relation->nb_parameters);
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    if (relation->nb_rows > 0) {
+    if (relation->nb_rows > 0 && name_array != NULL) {
       scolumn = osl_relation_column_string(relation, name_array);
       snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -994,7 +1021,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       }
 
       // Print column names in comment
-      if (relation->nb_rows > 0) {
+      if (relation->nb_rows > 0 && name_array != NULL) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
         snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
         osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -1090,9 +1117,9 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
                                               names->arrays->string);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
-        snprintf(buffer, OSL_MAX_STRING, "\n");
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
+      snprintf(buffer, OSL_MAX_STRING, "\n");
+      osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
       // add the lines in the scattering if we need the fakeiter
       if (relation->nb_rows > 0 && add_fakeiter &&
-- 
2.43.0


From bfd2230fe712b64128c0480307ed7026c27862a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 13/55] fix: print accesses without a known array identifier

---
 source/relation.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index d32a508..596cc37 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -554,6 +554,7 @@ int osl_relation_is_simple_output(const osl_relation_t* relation, int row) {
 char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
                                   char** strings, char** arrays) {
   int sign;
+  int array_id, nb_arrays = 0;
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
   char* expression;
@@ -567,6 +568,9 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     return string;
   }
 
+  while (arrays != NULL && arrays[nb_arrays] != NULL)
+    nb_arrays++;
+
   if ((sign = osl_relation_is_simple_output(relation, row))) {
     // First case : output == expression.
 
@@ -577,8 +581,10 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
+    array_id = osl_relation_get_array_id(relation);
     if (!osl_relation_is_access(relation) ||
-        osl_int_zero(relation->precision, relation->m[row][1])) {
+        osl_int_zero(relation->precision, relation->m[row][1]) ||
+        array_id < 1 || array_id > nb_arrays) {
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
@@ -587,7 +593,7 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       free(expression);
     } else {
       snprintf(buffer, OSL_MAX_STRING, " == %s",
-               arrays[osl_relation_get_array_id(relation) - 1]);
+               arrays[array_id - 1]);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
   } else {
@@ -819,6 +825,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
   char* string = NULL;
   char buffer[OSL_MAX_STRING];
   char** name_array = NULL;
+  char** arrays;
   char* scolumn;
   char* comment;
   osl_names_t* local_names = NULL;
@@ -836,6 +843,8 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
     names = local_names;
   }
 
+  arrays = (names->arrays != NULL) ? names->arrays->string : NULL;
+
   nb_parts = osl_relation_nb_components(relation);
 
   if (nb_parts > 1) {
@@ -877,7 +886,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
       if (name_array != NULL) {
         comment = osl_relation_sprint_comment(relation, i, name_array,
-                                              names->arrays->string);
+                                              arrays);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
       }
@@ -928,6 +937,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
   char* string = NULL;
   char buffer[OSL_MAX_STRING];
   char** name_array = NULL;
+  char** arrays;
   char* scolumn;
   char* comment;
   osl_names_t* local_names = NULL;
@@ -945,6 +955,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
     names = local_names;
   }
 
+  arrays = (names->arrays != NULL) ? names->arrays->string : NULL;
+
   nb_parts = osl_relation_nb_components(relation);
   if (nb_parts > 1) {
     snprintf(buffer, OSL_MAX_STRING, "# Union with %d parts\n%d\n", nb_parts,
@@ -1114,7 +1126,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // equation in comment
       if (name_array != NULL) {
         comment = osl_relation_sprint_comment(relation, i, name_array,
-                                              names->arrays->string);
+                                              arrays);
         osl_util_safe_strcat(&string, comment, &high_water_mark);
         free(comment);
       }
-- 
2.43.0


From 91bb9e959266ee2e36026f21f400b3c5ebde4a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 14/55] fix: print comments of wide relations

---
 source/relation.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 596cc37..2ef03eb 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -443,6 +443,7 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
                                  int start, int stop, int oppose,
                                  char** strings) {
   int i, first = 1, constant;
+  size_t high_water_mark = OSL_MAX_STRING;
   char* sval;
   char* sline;
 
@@ -468,7 +469,7 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
       osl_int_oppose(relation->precision, &relation->m[row][i],
                      relation->m[row][i]);
     }
-    strcat(sline, sval);
+    osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
 
@@ -576,8 +577,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
 
     expression = osl_relation_subexpression(
         relation, row, 1, relation->nb_output_dims, sign < 0, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
@@ -588,20 +589,19 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
-      snprintf(buffer, OSL_MAX_STRING, " == %s", expression);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string, expression, &high_water_mark);
       free(expression);
     } else {
-      snprintf(buffer, OSL_MAX_STRING, " == %s",
-               arrays[array_id - 1]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string, arrays[array_id - 1], &high_water_mark);
     }
   } else {
     // Second case : general case.
 
     expression = osl_relation_expression(relation, row, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     if (osl_int_zero(relation->precision, relation->m[row][0]))
@@ -635,7 +635,10 @@ char* osl_relation_column_string(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  // Each column needs OSL_FMT_LENGTH characters and a separator.
+  OSL_malloc(scolumn, char*,
+             OSL_MAX_STRING +
+                 (size_t)relation->nb_columns * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -709,7 +712,10 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  // Each column needs OSL_FMT_LENGTH characters and a separator.
+  OSL_malloc(scolumn, char*,
+             OSL_MAX_STRING +
+                 (size_t)relation->nb_columns * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -871,8 +877,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     if (relation->nb_rows > 0 && name_array != NULL) {
       scolumn = osl_relation_column_string(relation, name_array);
-      snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
     }
 
@@ -1035,8 +1040,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Print column names in comment
       if (relation->nb_rows > 0 && name_array != NULL) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
-        snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
       }
 
-- 
2.43.0


From 77f314b96dac535125cbaa94757a436d4254848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 15/55] fix: do not overflow when printing the opposite of the
 minimum value

---
 source/relation.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 2ef03eb..b0a89b0 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -442,7 +442,8 @@ char** osl_relation_strings(const osl_relation_t* relation,
 char* osl_relation_subexpression(const osl_relation_t* relation, int row,
                                  int start, int stop, int oppose,
                                  char** strings) {
-  int i, first = 1, constant;
+  int i, first = 1, constant, precision;
+  osl_int_t val;
   size_t high_water_mark = OSL_MAX_STRING;
   char* sval;
   char* sline;
@@ -452,9 +453,15 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
 
   // Create the expression. The constant is a special case.
   for (i = start; i <= stop; i++) {
+    precision = relation->precision;
+    osl_int_init_set(precision, &val, relation->m[row][i]);
     if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
+      // The opposite may not be representable in the relation precision.
+      if (osl_int_is_precision_supported(OSL_PRECISION_MP)) {
+        osl_int_set_precision(precision, OSL_PRECISION_MP, &val);
+        precision = OSL_PRECISION_MP;
+      }
+      osl_int_oppose(precision, &val, val);
     }
 
     if (i == relation->nb_columns - 1)
@@ -462,13 +469,9 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
     else
       constant = 0;
 
-    sval = osl_relation_expression_element(
-        relation->m[row][i], relation->precision, &first, constant, strings[i]);
-
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
+    sval = osl_relation_expression_element(val, precision, &first, constant,
+                                           strings[i]);
+    osl_int_clear(precision, &val);
     osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
-- 
2.43.0


From e66f08e9e1b8bcbc30c4b36cdd3022aee89d9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 16/55] fix: print all scattering rows in the SCoPLib format
 when a fake iterator is needed

---
 source/relation.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index b0a89b0..b1238f8 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1139,21 +1139,21 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       }
       snprintf(buffer, OSL_MAX_STRING, "\n");
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    }
 
-      // add the lines in the scattering if we need the fakeiter
-      if (relation->nb_rows > 0 && add_fakeiter &&
-          relation->type == OSL_TYPE_SCATTERING) {
-        for (i = 0; i < 2; i++) {
-          for (j = 0; j < relation->nb_columns; j++) {
-            if (j == index_output_dims && i == 0)
-              snprintf(buffer, OSL_MAX_STRING, "   1 ");  // fakeiter
-            else
-              snprintf(buffer, OSL_MAX_STRING, "   0 ");
-            osl_util_safe_strcat(&string, buffer, &high_water_mark);
-          }
-          snprintf(buffer, OSL_MAX_STRING, "\n");
+    // add the lines in the scattering if we need the fakeiter
+    if (relation->nb_rows > 0 && add_fakeiter &&
+        relation->type == OSL_TYPE_SCATTERING) {
+      for (i = 0; i < 2; i++) {
+        for (j = 0; j <= relation->nb_columns - relation->nb_output_dims; j++) {
+          if (j == index_output_dims && i == 0)
+            snprintf(buffer, OSL_MAX_STRING, "   1 ");  // fakeiter
+          else
+            snprintf(buffer, OSL_MAX_STRING, "   0 ");
           osl_util_safe_strcat(&string, buffer, &high_water_mark);
         }
+        snprintf(buffer, OSL_MAX_STRING, "\n");
+        osl_util_safe_strcat(&string, buffer, &high_water_mark);
       }
     }
 
-- 
2.43.0


From 9100ca4adac411106473e629eee6582802c0972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 17/55] fix: look for the array identifier only when it has to
 be printed

---
 source/relation.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index b1238f8..41c3480 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -558,7 +558,7 @@ int osl_relation_is_simple_output(const osl_relation_t* relation, int row) {
 char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
                                   char** strings, char** arrays) {
   int sign;
-  int array_id, nb_arrays = 0;
+  int array_id = OSL_UNDEFINED, nb_arrays = 0;
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
   char* expression;
@@ -585,10 +585,10 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
-    array_id = osl_relation_get_array_id(relation);
-    if (!osl_relation_is_access(relation) ||
-        osl_int_zero(relation->precision, relation->m[row][1]) ||
-        array_id < 1 || array_id > nb_arrays) {
+    if (osl_relation_is_access(relation) &&
+        !osl_int_zero(relation->precision, relation->m[row][1]))
+      array_id = osl_relation_get_array_id(relation);
+    if (array_id < 1 || array_id > nb_arrays) {
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
-- 
2.43.0


From d49ccce5a195a03eff638815f54dff2af25f7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 18/55] fix: do not crash when reading strings at the end of
 the file

---
 source/strings.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/strings.c b/source/strings.c
index 2db9461..d03d172 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -250,6 +250,8 @@ osl_strings_t* osl_strings_read(FILE* const file) {
   osl_strings_p strings;
 
   start = osl_util_skip_blank_and_comments(file, buffer);
+  if (start == NULL)  // End of file.
+    return NULL;
   strings = osl_strings_sread(&start);
 
   return strings;
-- 
2.43.0


From bb7ed181de4be262e2717f4aa461efcb39d1531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 19/55] fix: compare vectors with NULL

---
 source/vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/vector.c b/source/vector.c
index 7bce599..b456811 100644
--- a/source/vector.c
+++ b/source/vector.c
@@ -319,6 +319,9 @@ int osl_vector_equal(const osl_vector_t* const v1,
   if (v1 == v2)
     return 1;
 
+  if ((v1 == NULL) || (v2 == NULL))
+    return 0;
+
   if ((v1->size != v2->size) || (v1->precision != v2->precision))
     return 0;
 
-- 
2.43.0


From 6d3d1e6ae20326bc2a787a1493448848c276864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 20/55] fix: do not convert the first coefficient when adding a
 vector to a row

---
 source/relation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 41c3480..3b8a756 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1938,7 +1938,7 @@ void osl_relation_add_vector(osl_relation_t* relation,
       (row < 0))
     OSL_error("vector cannot be added to relation");
 
-  if (osl_int_get_si(relation->precision, relation->m[row][0]) == 0)
+  if (osl_int_zero(relation->precision, relation->m[row][0]))
     osl_int_assign(relation->precision, &relation->m[row][0], vector->v[0]);
 
   for (i = 1; i < vector->size; i++)
@@ -1965,7 +1965,7 @@ void osl_relation_sub_vector(osl_relation_t* relation,
       (row < 0))
     OSL_error("vector cannot be subtracted to row");
 
-  if (osl_int_get_si(relation->precision, relation->m[row][0]) == 0)
+  if (osl_int_zero(relation->precision, relation->m[row][0]))
     osl_int_assign(relation->precision, &relation->m[row][0], vector->v[0]);
 
   for (i = 1; i < vector->size; i++)
-- 
2.43.0


From 5133ba23ce6861b2a54613b2026bafa6a9a6af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 21/55] fix: keep all statements when removing the unions of a
 SCoP

---
 source/scop.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index a1d9ac9..c7e55c7 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -666,9 +666,10 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
         scop_statement_ptr->next = new_statement;
         scop_statement_ptr = scop_statement_ptr->next;
       }
+      // The statement may have been replaced with several statements.
+      while (scop_statement_ptr && scop_statement_ptr->next != NULL)
+        scop_statement_ptr = scop_statement_ptr->next;
     }
-    while (scop_statement_ptr && scop_statement_ptr->next != NULL)
-      scop_statement_ptr = scop_statement_ptr->next;
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-- 
2.43.0


From 31f515d7fccb2c8f695aea161aa13648f77b1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 22/55] fix: compare a SCoP without statements

---
 source/statement.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/statement.c b/source/statement.c
index 6cf7ada..3de955b 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -671,6 +671,11 @@ int osl_statement_equal(const osl_statement_t* const s1,
   if (s1 == s2)
     return 1;
 
+  if ((s1 == NULL) || (s2 == NULL)) {
+    OSL_info("statements are not the same");
+    return 0;
+  }
+
   if (((s1->next != NULL) && (s2->next == NULL)) ||
       ((s1->next == NULL) && (s2->next != NULL))) {
     OSL_info("statements are not the same");
-- 
2.43.0


From c3bfef0c848ad00542684c32a75777b7d7bc2923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 23/55] fix: compare SCoPs without a language

---
 source/scop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index c7e55c7..c99b3f3 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -710,7 +710,9 @@ bool osl_scop_equal(const osl_scop_t* s1, const osl_scop_t* s2) {
       return 0;
     }
 
-    if (strcmp(s1->language, s2->language) != 0) {
+    if ((s1->language != s2->language) &&
+        ((s1->language == NULL) || (s2->language == NULL) ||
+         (strcmp(s1->language, s2->language) != 0))) {
       OSL_info("languages are not the same");
       return 0;
     }
-- 
2.43.0


From e11b76d35eeeffb02c0146506bae1c9176eb614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 24/55] fix: extract registered extensions from the textual
 form of the extensions

---
 source/scop.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index c99b3f3..62c562a 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -880,15 +880,16 @@ int osl_scop_get_nb_parameters(const osl_scop_t* scop) {
  * \param interface The extension interface to register within the scop.
  */
 void osl_scop_register_extension(osl_scop_t* scop, osl_interface_t* interface) {
-  osl_generic_p textual, new;
+  osl_textual_p textual;
+  osl_generic_p new;
   char* extension_string;
 
   if ((interface != NULL) && (scop != NULL)) {
     osl_interface_add(&scop->registry, interface);
 
-    textual = osl_generic_lookup(scop->extension, interface->URI);
-    if (textual != NULL) {
-      extension_string = ((osl_textual_p)textual->data)->textual;
+    textual = osl_generic_lookup(scop->extension, OSL_URI_TEXTUAL);
+    if ((textual != NULL) && (textual->textual != NULL)) {
+      extension_string = textual->textual;
       new = osl_generic_sread(&extension_string, interface);
       osl_generic_add(&scop->extension, new);
     }
-- 
2.43.0


From ecb0b2bff731dd58d261d3a6c12014f4d7dac57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 25/55] fix: report SCoPs that are not compatible with SCoPLib
 instead of exiting

---
 source/scop.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 62c562a..4180abb 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -800,32 +800,38 @@ int osl_scop_integrity_check(const osl_scop_t* scop) {
  * \return 0 if the integrity check fails, 1 otherwise.
  */
 int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
+  if (scop == NULL)
+    return 1;
   if (!osl_scop_integrity_check(scop))
     return 0;
   if (scop->next != NULL)
     return 0;
-  if (scop == NULL || scop->statement == NULL)
-    return 1;
 
   osl_relation_p domain;
   osl_statement_p statement;
   osl_relation_p scattering;
-  int precision = scop->statement->scattering->precision;
+  int precision;
   int i, j;
 
   statement = scop->statement;
   while (statement != NULL) {
     scattering = statement->scattering;
 
+    if ((scattering == NULL) || (statement->domain == NULL)) {
+      OSL_warning("Missing domain or scattering relation");
+      return 0;
+    }
+    precision = scattering->precision;
+
     if (scattering->nb_local_dims != 0) {
-      OSL_error("Local dims in scattering matrix");
+      OSL_warning("Local dims in scattering matrix");
       return 0;
     }
 
     domain = statement->domain;
     while (domain != NULL) {
       if (domain->nb_local_dims != 0) {
-        OSL_error("Local dims in domain matrix");
+        OSL_warning("Local dims in domain matrix");
         return 0;
       }
       domain = domain->next;
@@ -837,12 +843,12 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
       for (j = 0; j < scattering->nb_output_dims; j++) {
         if (i == j) {  // -1
           if (!osl_int_mone(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
+            OSL_warning("Wrong -Identity");
             return 0;
           }
         } else {  // 0
           if (!osl_int_zero(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
+            OSL_warning("Wrong -Identity");
             return 0;
           }
         }
-- 
2.43.0


From 06c2634ddaa756cec4791eb4dd3e2fdfed43e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 26/55] fix: compare all the interfaces of two registries

---
 source/interface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/interface.c b/source/interface.c
index 9e65bb9..f84a60a 100644
--- a/source/interface.c
+++ b/source/interface.c
@@ -320,7 +320,9 @@ bool osl_interface_equal(const osl_interface_t* const interface1,
       ((interface1 != NULL) && (interface2 == NULL)))
     return 0;
 
-  if (strcmp(interface1->URI, interface2->URI) ||
+  if (((interface1->URI == NULL) != (interface2->URI == NULL)) ||
+      ((interface1->URI != NULL) &&
+       strcmp(interface1->URI, interface2->URI)) ||
       (interface1->idump != interface2->idump) ||
       (interface1->sprint != interface2->sprint) ||
       (interface1->sread != interface2->sread) ||
@@ -330,7 +332,7 @@ bool osl_interface_equal(const osl_interface_t* const interface1,
       (interface1->equal != interface2->equal))
     return 0;
 
-  return 1;
+  return osl_interface_equal(interface1->next, interface2->next);
 }
 
 /**
-- 
2.43.0


From 073d0618d3b62288d3ca9ebae7c04e9c9d5f3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 27/55] fix: refuse generics with the same URI even when their
 data is NULL

---
 source/generic.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/generic.c b/source/generic.c
index 8e878c4..7d0b7a8 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -361,7 +361,7 @@ osl_generic_t* osl_generic_read(FILE* const file,
  * \param[in] generic The generic list to add to the initial list.
  */
 void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
-  osl_generic_p tmp = *list, check;
+  osl_generic_p tmp = *list, check, other;
 
   if (generic != NULL) {
     // First, check that the generic list is OK.
@@ -371,8 +371,9 @@ void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
         OSL_error("no interface or URI in a generic to add to a list");
 
       // TODO: move this to the integrity check.
-      if (osl_generic_lookup(*list, check->interface->URI) != NULL)
-        OSL_error("only one generic with a given URI is allowed");
+      for (other = *list; other != NULL; other = other->next)
+        if (osl_generic_has_URI(other, check->interface->URI))
+          OSL_error("only one generic with a given URI is allowed");
       check = check->next;
     }
 
-- 
2.43.0


From 4cd202f340800e760457a5f53c55e173ff932db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 28/55] fix: free the tag when it does not open a generic

---
 source/generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 7d0b7a8..4ed516a 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -264,6 +264,7 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   tag = osl_util_read_tag(NULL, input);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
@@ -306,6 +307,7 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   tag = osl_util_read_tag(file, NULL);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
-- 
2.43.0


From 2d8da406a0e5c53f10b776145a41b473932d1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 29/55] fix: refuse generics and SCoPs without a closing tag

---
 source/generic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 4ed516a..92cf8dd 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -269,6 +269,8 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   }
 
   content = osl_util_read_uptoendtag(NULL, input, tag);
+  if (content == NULL)
+    OSL_error("no closing tag for a generic");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -312,6 +314,8 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   }
 
   content = osl_util_read_uptoendtag(file, NULL, tag);
+  if (content == NULL)
+    OSL_error("no closing tag for a generic");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -344,6 +348,8 @@ osl_generic_t* osl_generic_read(FILE* const file,
   osl_generic_p generic_list;
 
   generic_string = osl_util_read_uptoendtag(file, NULL, OSL_URI_SCOP);
+  if (generic_string == NULL)
+    OSL_error("no closing tag for the SCoP");
   temp = generic_string;
   generic_list = osl_generic_sread(&temp, registry);
   free(generic_string);
-- 
2.43.0


From 3e02368e5f6f498b1418bb902624386ff650a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 30/55] fix: comment and clay texts of any length survive
 printing and reading

---
 source/extensions/clay.c    | 28 +++++++++-----------------
 source/extensions/comment.c | 40 +++++++++++++------------------------
 source/extensions/null.c    |  2 +-
 3 files changed, 24 insertions(+), 46 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index b65cdc2..788a868 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -103,10 +103,10 @@ void osl_clay_idump(FILE* const file, const osl_clay_t* const clay, int level) {
 
     // Display the clay script (without any carriage return).
     OSL_strdup(tmp, clay->script);
-    for (l = 0; l < strlen(tmp); l++)
+    for (l = 0; (tmp != NULL) && (l < strlen(tmp)); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
-    fprintf(file, "script: %s\n", tmp);
+    fprintf(file, "script: %s\n", tmp != NULL ? tmp : "(null)");
     free(tmp);
   }
 
@@ -135,21 +135,11 @@ void osl_clay_dump(FILE* const file, const osl_clay_t* const clay) {
  * \return A string containing the OpenScop dump of the clay structure.
  */
 char* osl_clay_sprint(const osl_clay_t* const clay) {
-  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
-  if (clay != NULL) {
-    OSL_malloc(string, char*, high_water_mark * sizeof(char));
-    string[0] = '\0';
-
-    // Print the clay.
-    sprintf(buffer, "%s", clay->script);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
-
-    // Keep only the memory space we need.
-    OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
-  }
+  // Print the clay.
+  if (clay != NULL)
+    OSL_strdup(string, clay->script);
 
   return string;
 }
@@ -177,9 +167,6 @@ osl_clay_t* osl_clay_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("clay script too long");
-
   // Build the clay structure
   clay = osl_clay_malloc();
   script = *input;
@@ -191,7 +178,7 @@ osl_clay_t* osl_clay_sread(char** input) {
   OSL_strdup(clay->script, script);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return clay;
 }
@@ -271,6 +258,9 @@ bool osl_clay_equal(const osl_clay_t* const c1, const osl_clay_t* const c2) {
     return 0;
   }
 
+  if ((c1->script == NULL) || (c2->script == NULL))
+    return c1->script == c2->script;
+
   if (strcmp(c1->script, c2->script)) {
     OSL_info("clay scripts are not the same");
     return 0;
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 1798d15..91f044b 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -104,10 +104,10 @@ void osl_comment_idump(FILE* const file, const osl_comment_t* const comment,
 
     // Display the comment message (without any carriage return).
     OSL_strdup(tmp, comment->comment);
-    for (l = 0; l < strlen(tmp); l++)
+    for (l = 0; (tmp != NULL) && (l < strlen(tmp)); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
-    fprintf(file, "comment: %s\n", tmp);
+    fprintf(file, "comment: %s\n", tmp != NULL ? tmp : "(null)");
     free(tmp);
   }
 
@@ -136,21 +136,11 @@ void osl_comment_dump(FILE* const file, const osl_comment_t* const comment) {
  * \return A string containing the OpenScop dump of the comment structure.
  */
 char* osl_comment_sprint(const osl_comment_t* const comment) {
-  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
-  if (comment != NULL) {
-    OSL_malloc(string, char*, high_water_mark * sizeof(char));
-    string[0] = '\0';
-
-    // Print the comment.
-    sprintf(buffer, "%s", comment->comment);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
-
-    // Keep only the memory space we need.
-    OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
-  }
+  // Print the comment.
+  if (comment != NULL)
+    OSL_strdup(string, comment->comment);
 
   return string;
 }
@@ -171,21 +161,24 @@ char* osl_comment_sprint(const osl_comment_t* const comment) {
  */
 osl_comment_t* osl_comment_sread(char** input) {
   osl_comment_p comment;
+  char* text;
 
   if (*input == NULL) {
     OSL_debug("no comment optional tag");
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("comment too long");
-
   // Build the comment structure
   comment = osl_comment_malloc();
-  OSL_strdup(comment->comment, *input);
+  text = *input;
+
+  // Pass the carriage returns inserted by osl_generic_print.
+  while (*text && (*text == '\n'))
+    text++;
+  OSL_strdup(comment->comment, text);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return comment;
 }
@@ -266,12 +259,7 @@ bool osl_comment_equal(const osl_comment_t* const c1,
     return 0;
   }
 
-  if (strcmp(c1->comment, c2->comment)) {
-    // Well, the test does not apply well on textual content but the idea
-    // is here (see osl_generic_sprint if you want to understand the problem).
-    // OSL_info("comments are not the same");
-    // return 0;
-  }
+  // The textual content is not significant.
 
   return 1;
 }
diff --git a/source/extensions/null.c b/source/extensions/null.c
index 20f012e..3b8f91a 100644
--- a/source/extensions/null.c
+++ b/source/extensions/null.c
@@ -156,7 +156,7 @@ osl_null_t* osl_null_sread(char** input) {
   null = osl_null_malloc();
 
   // Update the input pointer (everything has been read and ignored).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return null;
 }
-- 
2.43.0


From 37a799d9a1fe95b45ec0c6fa99bfdb39f610ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 31/55] fix: printing NULL scatnames does not dereference it

---
 source/extensions/scatnames.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/scatnames.c b/source/extensions/scatnames.c
index 68ad02e..f9d908f 100644
--- a/source/extensions/scatnames.c
+++ b/source/extensions/scatnames.c
@@ -132,6 +132,9 @@ void osl_scatnames_dump(FILE* const file,
  * \return A string containing the OpenScop dump of the scatnames structure.
  */
 char* osl_scatnames_sprint(const osl_scatnames_t* const scatnames) {
+  if (scatnames == NULL)
+    return NULL;
+
   return osl_strings_sprint(scatnames->names);
 }
 
-- 
2.43.0


From a3a522607a06bb1d8dd4816892ada6e7f00ad6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 32/55] fix: arrays, extbody and loop equality counts repeated
 entries

---
 source/extensions/arrays.c  | 12 ++++++------
 source/extensions/extbody.c | 15 ++++++++-------
 source/extensions/loop.c    | 28 ++++++++++++++++------------
 3 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 71856a9..42bbd60 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -318,16 +318,16 @@ bool osl_arrays_equal(const osl_arrays_t* const a1,
   }
 
   // We accept a different order of the names, as long as the identifiers
-  // are the same.
+  // are the same and appear as many times.
   for (i = 0; i < a1->nb_names; i++) {
     found = 0;
     for (j = 0; j < a2->nb_names; j++) {
-      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))) {
-        found = 1;
-        break;
-      }
+      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j])))
+        found++;
+      if ((a1->id[i] == a1->id[j]) && (!strcmp(a1->names[i], a1->names[j])))
+        found--;
     }
-    if (found != 1) {
+    if (found != 0) {
       OSL_info("arrays are not the same");
       return 0;
     }
diff --git a/source/extensions/extbody.c b/source/extensions/extbody.c
index f7d03eb..68eafd9 100644
--- a/source/extensions/extbody.c
+++ b/source/extensions/extbody.c
@@ -311,7 +311,8 @@ osl_extbody_t* osl_extbody_clone(const osl_extbody_t* const ebody) {
  */
 bool osl_extbody_equal(const osl_extbody_t* const e1,
                        const osl_extbody_t* const e2) {
-  size_t i, j, found;
+  size_t i, j;
+  int found;
 
   if (e1 == e2)
     return 1;
@@ -328,16 +329,16 @@ bool osl_extbody_equal(const osl_extbody_t* const e1,
   }
 
   // We accept a different order of the start/length, as long as the
-  // identifiers are the same.
+  // identifiers are the same and appear as many times.
   for (i = 0; i < e1->nb_access; i++) {
     found = 0;
     for (j = 0; j < e2->nb_access; j++) {
-      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j])) {
-        found = 1;
-        break;
-      }
+      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j]))
+        found++;
+      if ((e1->start[i] == e1->start[j]) && (e1->length[i] == e1->length[j]))
+        found--;
     }
-    if (found != 1) {
+    if (found != 0) {
       OSL_info("extbody are not the same");
       return 0;
     }
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index f6ff067..ce96906 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -449,7 +449,8 @@ osl_loop_t* osl_loop_clone(const osl_loop_t* loop) {
  */
 bool osl_loop_equal_one(const osl_loop_t* const a1,
                         const osl_loop_t* const a2) {
-  size_t i, j, found;
+  size_t i, j;
+  int found;
 
   if (a1 == a2)
     return 1;
@@ -470,16 +471,16 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
   // We accept a different order of the names, as long as the identifiers
-  // are the same.
+  // are the same and appear as many times.
   for (i = 0; i < a1->nb_stmts; i++) {
     found = 0;
     for (j = 0; j < a2->nb_stmts; j++) {
-      if (a1->stmt_ids[i] == a2->stmt_ids[j]) {
-        found = 1;
-        break;
-      }
+      if (a1->stmt_ids[i] == a2->stmt_ids[j])
+        found++;
+      if (a1->stmt_ids[i] == a1->stmt_ids[j])
+        found--;
     }
-    if (found != 1) {
+    if (found != 0) {
       // OSL_info("loop are not the same (stmt ids)");
       return 0;
     }
@@ -521,6 +522,7 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
  */
 bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
   int found = 0;
+  const osl_loop_t* first = a1;
 
   if (a1 == a2)
     return 1;
@@ -540,14 +542,16 @@ bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
     const osl_loop_t* temp = a2;
 
     while (temp) {
-      if (osl_loop_equal_one(a1, temp) == 1) {
-        found = 1;
-        break;
-      }
+      if (osl_loop_equal_one(a1, temp) == 1)
+        found++;
       temp = temp->next;
     }
+    for (temp = first; temp != NULL; temp = temp->next) {
+      if (osl_loop_equal_one(a1, temp) == 1)
+        found--;
+    }
 
-    if (found != 1) {
+    if (found != 0) {
       OSL_info("list of loops are not the same");
       return 0;
     }
-- 
2.43.0


From fd7b3e4767e3113e3ceae4cb9e5bf7ffc2087cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 33/55] fix: loop and coordinates equality accepts missing
 strings

---
 source/extensions/coordinates.c | 3 ++-
 source/extensions/loop.c        | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index e9e9b44..c09b225 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -304,7 +304,8 @@ bool osl_coordinates_equal(const osl_coordinates_t* const c1,
   if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
     return 0;
 
-  if (strcmp(c1->name, c2->name)) {
+  if ((c1->name != c2->name) &&
+      (c1->name == NULL || c2->name == NULL || strcmp(c1->name, c2->name))) {
     OSL_info("file names are not the same");
     return 0;
   }
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index ce96906..d28455d 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -466,7 +466,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
 
-  if (strcmp(a1->iter, a2->iter)) {
+  if ((a1->iter != a2->iter) &&  // NULL check
+      (a1->iter == NULL || a2->iter == NULL || strcmp(a1->iter, a2->iter))) {
     // OSL_info("loops are not the same (iter name)");
     return 0;
   }
@@ -488,7 +489,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
 
   // TODO: necessarily same ???
   if (a1->private_vars != a2->private_vars) {  // NULL check
-    if (strcmp(a1->private_vars, a2->private_vars)) {
+    if (a1->private_vars == NULL || a2->private_vars == NULL ||
+        strcmp(a1->private_vars, a2->private_vars)) {
       // OSL_info("loops are not the same (private vars)");
       return 0;
     }
@@ -501,7 +503,7 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
   }
 
   if (a1->user != a2->user) {  // NULL check
-    if (strcmp(a1->user, a2->user)) {
+    if (a1->user == NULL || a2->user == NULL || strcmp(a1->user, a2->user)) {
       return 0;
     }
   }
-- 
2.43.0


From a70875e142c08032c8410cc5d034dd2a0731e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 34/55] fix: print extensions with long strings or many items

---
 source/extensions/annotation.c   | 13 +++++-----
 source/extensions/arrays.c       |  4 +++-
 source/extensions/coordinates.c  |  7 ++++--
 source/extensions/loop.c         | 16 ++++++++-----
 source/extensions/pluto_unroll.c | 41 +++++++++++++++-----------------
 source/extensions/region.c       | 13 +++++-----
 6 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index bb41a58..ad866e2 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -228,12 +228,13 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
     osl_util_safe_strcat(&string, buffer, &high_water_mark);   \
     sprintf(buffer, "# %s lines (if any)\n", name);            \
     osl_util_safe_strcat(&string, buffer, &high_water_mark);   \
-    for (size_t i = 0; i < annotation->field.count; ++i) {     \
-      sprintf(buffer, "%d ", annotation->field.types[i]);      \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", annotation->field.lines[i]);     \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-    }                                                          \
+    for (size_t i = 0; i < annotation->field.count; ++i) {               \
+      sprintf(buffer, "%d ", annotation->field.types[i]);                \
+      osl_util_safe_strcat(&string, buffer, &high_water_mark);           \
+      osl_util_safe_strcat(&string, annotation->field.lines[i],          \
+                           &high_water_mark);                            \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);             \
+    }                                                                    \
   } while (0)
 
   _osl_annotation_sprint_text("Prefix", prefix);
diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 42bbd60..8a075e6 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -160,8 +160,10 @@ char* osl_arrays_sprint(const osl_arrays_t* const arrays) {
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
     for (i = 0; i < arrays->nb_names; i++) {
-      sprintf(buffer, "%d %s\n", arrays->id[i], arrays->names[i]);
+      sprintf(buffer, "%d ", arrays->id[i]);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, arrays->names[i], &high_water_mark);
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
     }
 
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index c09b225..856d906 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -159,8 +159,11 @@ char* osl_coordinates_sprint(const osl_coordinates_t* const coordinates) {
     string[0] = '\0';
 
     // Print the coordinates content.
-    sprintf(buffer, "# File name\n%s\n", coordinates->name);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "# File name\n", &high_water_mark);
+    osl_util_safe_strcat(&string,
+                         coordinates->name ? coordinates->name : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Starting line and column\n%d %d\n",
             coordinates->line_start, coordinates->column_start);
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index d28455d..a2c5d12 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -204,8 +204,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Iterator name\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->iter);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, loop->iter ? loop->iter : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Number of stmts\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -223,8 +224,10 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Private variables\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->private_vars);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string,
+                         loop->private_vars ? loop->private_vars : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Directive\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -233,8 +236,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     // special case for OSL_LOOP_DIRECTIVE_USER
     if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {
-      sprintf(buffer, " %s", loop->user);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " ", &high_water_mark);
+      osl_util_safe_strcat(&string, loop->user ? loop->user : "(null)",
+                           &high_water_mark);
     }
     sprintf(buffer, "\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index d5f4190..861bcc0 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -164,38 +164,35 @@ void osl_pluto_unroll_dump(FILE* const file,
  * \return a string containing the OpenScop dump of the loop structure.
  */
 char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
+  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING] = {0};
+  char buffer[OSL_MAX_STRING];
 
-  strcat(buffer, "# Pluto unroll\n");
-  if (pluto_unroll != NULL) {
-    strcat(buffer, "1\n");
-  } else {
-    strcat(buffer, "0\n");
-  }
+  OSL_malloc(string, char*, high_water_mark * sizeof(char));
+  string[0] = '\0';
 
-  while (pluto_unroll != NULL) {
-    strcat(buffer, "# Iterator name\n");
-    sprintf(buffer + strlen(buffer), "%s\n", pluto_unroll->iter);
+  osl_util_safe_strcat(&string, "# Pluto unroll\n", &high_water_mark);
+  osl_util_safe_strcat(&string, pluto_unroll != NULL ? "1\n" : "0\n",
+                       &high_water_mark);
 
-    strcat(buffer, "# Jam\n");
-    sprintf(buffer + strlen(buffer), "%i\n", pluto_unroll->jam);
+  while (pluto_unroll != NULL) {
+    osl_util_safe_strcat(&string, "# Iterator name\n", &high_water_mark);
+    osl_util_safe_strcat(&string,
+                         pluto_unroll->iter ? pluto_unroll->iter : "(null)",
+                         &high_water_mark);
 
-    strcat(buffer, "# Factor\n");
-    sprintf(buffer + strlen(buffer), "%u\n", pluto_unroll->factor);
+    sprintf(buffer, "\n# Jam\n%i\n# Factor\n%u\n", pluto_unroll->jam,
+            pluto_unroll->factor);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
     pluto_unroll = pluto_unroll->next;
 
-    strcat(buffer, "# Next\n");
-    if (pluto_unroll != NULL) {
-      strcat(buffer, "1\n");
-    } else {
-      strcat(buffer, "0\n");
-    }
+    osl_util_safe_strcat(&string, "# Next\n", &high_water_mark);
+    osl_util_safe_strcat(&string, pluto_unroll != NULL ? "1\n" : "0\n",
+                         &high_water_mark);
   }
 
-  OSL_realloc(string, char*, (strlen(buffer) + 1) * sizeof(char));
-  strcpy(string, buffer);
+  OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
 
   return string;
 }
diff --git a/source/extensions/region.c b/source/extensions/region.c
index b73632d..13e1152 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -270,12 +270,13 @@ char* osl_region_sprint(const osl_region_t* region) {
     osl_util_safe_strcat(&string, buffer, &high_water_mark);   \
     sprintf(buffer, "# %s lines (if any)\n", name);            \
     osl_util_safe_strcat(&string, buffer, &high_water_mark);   \
-    for (size_t i = 0; i < region->field.count; ++i) {         \
-      sprintf(buffer, "%d ", region->field.types[i]);          \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", region->field.lines[i]);         \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-    }                                                          \
+    for (size_t i = 0; i < region->field.count; ++i) {                   \
+      sprintf(buffer, "%d ", region->field.types[i]);                    \
+      osl_util_safe_strcat(&string, buffer, &high_water_mark);           \
+      osl_util_safe_strcat(&string, region->field.lines[i],              \
+                           &high_water_mark);                            \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);             \
+    }                                                                    \
   } while (0)
 
     _osl_region_sprint_text("Prefix", prefix);
-- 
2.43.0


From df3e465a96b06df5de6b35249dc3c9dec3d137e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 35/55] fix: compare equal regions without going beyond the end
 of the lists

---
 source/extensions/region.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index 13e1152..e4b8556 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -382,6 +382,9 @@ void osl_region_free(osl_region_t* region) {
  ******************************************************************************/
 
 osl_region_t* osl_region_clone_one(const osl_region_t* source) {
+  if (!source)
+    return NULL;
+
   osl_region_t* clone = osl_region_malloc();
 
   clone->location = source->location;
@@ -432,7 +435,7 @@ bool osl_region_equal_one(const osl_region_t* r1, const osl_region_t* r2) {
 bool osl_region_equal(const osl_region_t* r1, const osl_region_t* r2) {
   bool equal = osl_region_equal_one(r1, r2);
 
-  if (equal)
+  if (equal && r1 != r2)
     return osl_region_equal(r1->next, r2->next);
   else
     return equal;
-- 
2.43.0


From 43d20f2f76607331176991805738aadc956cb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 36/55] fix: clone, free, display and print NULL annotations

---
 source/extensions/annotation.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index ad866e2..dca2602 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -198,8 +198,10 @@ void osl_annotation_idump(FILE* const file, const osl_annotation_t* annotation,
   osl_annotation_idump_indent(file, level);
   fprintf(file, "\n");
 
-  osl_annotation_text_idump(file, &annotation->prefix, level + 2);
-  osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  if (annotation != NULL) {
+    osl_annotation_text_idump(file, &annotation->prefix, level + 2);
+    osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  }
 
   /* Last line. */
   osl_annotation_idump_indent(file, level);
@@ -214,6 +216,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
   char* string = NULL;
   size_t high_water_mark = OSL_MAX_STRING;
 
+  if (!annotation)
+    return NULL;
+
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
 
@@ -292,6 +297,9 @@ osl_annotation_t* osl_annotation_malloc(void) {
 }
 
 void osl_annotation_free(osl_annotation_t* annotation) {
+  if (!annotation)
+    return;
+
   osl_annotation_text_clean(&annotation->prefix);
   osl_annotation_text_clean(&annotation->suffix);
   free(annotation);
@@ -302,6 +310,9 @@ void osl_annotation_free(osl_annotation_t* annotation) {
  *****************************************************************************/
 
 osl_annotation_t* osl_annotation_clone(const osl_annotation_t* const source) {
+  if (!source)
+    return NULL;
+
   osl_annotation_t* const clone = osl_annotation_malloc();
 
   clone->prefix = osl_annotation_text_clone(&source->prefix);
-- 
2.43.0


From a67b2d25cc90caf98407e283096cad85d68d3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 37/55] fix: compare, display and clone dependences without
 links to the SCoP

---
 source/extensions/dependence.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 306a651..aec6708 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -175,19 +175,23 @@ void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Statement label: %d\n", dependence->label_source);
-    tmp = dependence->stmt_source_ptr->next;
-    dependence->stmt_source_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
-    dependence->stmt_source_ptr->next = tmp;
+    if (dependence->stmt_source_ptr != NULL) {
+      tmp = dependence->stmt_source_ptr->next;
+      dependence->stmt_source_ptr->next = NULL;
+      osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
+      dependence->stmt_source_ptr->next = tmp;
+    }
 
     /* Print the target statement. */
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Target label: %d\n", dependence->label_target);
-    tmp = dependence->stmt_target_ptr->next;
-    dependence->stmt_target_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
-    dependence->stmt_target_ptr->next = tmp;
+    if (dependence->stmt_target_ptr != NULL) {
+      tmp = dependence->stmt_target_ptr->next;
+      dependence->stmt_target_ptr->next = NULL;
+      osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
+      dependence->stmt_target_ptr->next = tmp;
+    }
 
     /* Print the dependence polyhedron. */
     for (j = 0; j <= level; j++)
@@ -519,6 +523,8 @@ static osl_dependence_t* osl_dependence_nclone(const osl_dependence_t* dep,
     node = osl_dependence_malloc();
     node->stmt_source_ptr = dep->stmt_source_ptr;
     node->stmt_target_ptr = dep->stmt_target_ptr;
+    node->ref_source_access_ptr = dep->ref_source_access_ptr;
+    node->ref_target_access_ptr = dep->ref_target_access_ptr;
     node->depth = dep->depth;
     node->type = dep->type;
     node->label_source = dep->label_source;
@@ -578,6 +584,9 @@ bool osl_dependence_equal(const osl_dependence_t* d1,
   if (d1 == d2)
     return 1;
 
+  if (d1 == NULL || d2 == NULL)
+    return 0;
+
   if ((d1->next != NULL && d2->next == NULL) ||
       (d1->next == NULL && d2->next != NULL))
     return 0;
-- 
2.43.0


From 7b6dc879d7b15be5eaa790530f392c4f62adee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 38/55] fix: do not overflow when a dependence is followed by a
 long line

---
 source/extensions/dependence.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index aec6708..de90aeb 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -380,8 +380,10 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
     tmp++;
     row_size += 1;
   }
+  if (row_size >= OSL_MAX_STRING)
+    row_size = OSL_MAX_STRING - 1;
   strncpy(str, *input, sizeof(char) * row_size);
-  str[(tmp - *input)] = '\0';
+  str[row_size] = '\0';
   /* - Read the information */
   int read = sscanf(str, " %d %d %d %d %d %d %d %d",
                     &dep->source_nb_output_dims_domain,
-- 
2.43.0


From 079f5fbd3eff5845e052c269fe7e98ff60af7ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 39/55] fix: compare all the symbols of two lists and read long
 lists of symbols

---
 source/extensions/symbols.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 087d11c..b034d7c 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -326,9 +326,6 @@ osl_symbols_t* osl_symbols_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("symbols too long");
-
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
 
@@ -512,7 +509,7 @@ bool osl_symbols_equal(const osl_symbols_t* c1, const osl_symbols_t* c2) {
       if (osl_generic_equal(c1->datatype, c2->datatype)) {
         if (osl_generic_equal(c1->scope, c2->scope)) {
           if (osl_generic_equal(c1->extent, c2->extent)) {
-            return 1;
+            return osl_symbols_equal(c1->next, c2->next);
           }
         }
       }
-- 
2.43.0


From 1e14103529492dd5cdc63875d2d524f87ebe383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 40/55] fix: clone the bodies of an irregular extension

---
 source/extensions/irregular.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 8fde9e1..eea4534 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -459,7 +459,7 @@ osl_irregular_t* osl_irregular_clone(const osl_irregular_t* irregular) {
     }
     for (j = 0; j < copy->nb_iterators[i]; j++)
       OSL_strdup(copy->iterators[i][j], irregular->iterators[i][j]);
-    OSL_strdup(copy->iterators[i][j], irregular->body[i]);
+    OSL_strdup(copy->body[i], irregular->body[i]);
   }
 
   return copy;
-- 
2.43.0


From 9490624dc51dd847e844ca02f342268d114b73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 41/55] fix: compare the predicates of irregular extensions

---
 source/extensions/irregular.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index eea4534..86fdeb6 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -488,6 +488,11 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_statements) {
     comp = c1->nb_predicates[i] != c2->nb_predicates[i] ? 1 : 0;
+    j = 0;
+    while (comp == 0 && j < c1->nb_predicates[i]) {
+      comp = c1->predicates[i][j] != c2->predicates[i][j] ? 1 : 0;
+      j++;
+    }
     i++;
   }
   if (comp != 0)
@@ -496,10 +501,10 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_control + c1->nb_exit) {
     comp += c1->nb_iterators[i] != c2->nb_iterators[i] ? 1 : 0;
-    comp += strcmp(c1->body[i], c2->body[i]);
+    comp += strcmp(c1->body[i], c2->body[i]) ? 1 : 0;
     j = 0;
     while (comp == 0 && j < c1->nb_iterators[i]) {
-      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]);
+      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]) ? 1 : 0;
       j++;
     }
     i++;
-- 
2.43.0


From a2112b92b5ce8ae8c782cf5c2dd8bf2d079892e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 42/55] fix: restart the list of arguments when printing long
 irregular extensions

---
 source/extensions/irregular.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 86fdeb6..ff566c5 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -154,9 +154,10 @@ static void
 printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
               ...) {
   va_list va;
-  va_start(va, fmt);
   do {
+    va_start(va, fmt);
     int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);
+    va_end(va);
     if (printed < 0)
       OSL_error(
           "snprintf encountered an error while writing inside a local buffer");
@@ -168,7 +169,6 @@ printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
     OSL_realloc(*buf, char*, *buf_size * 2);
     *buf_size *= 2;
   } while (1);
-  va_end(va);
 }
 
 /**
-- 
2.43.0


From eb89e903c2b811e8ca6d8335ed7560b3b007b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 43/55] fix: read irregular extensions in the form they are
 printed

---
 source/extensions/irregular.c | 60 ++++++++++++++---------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index ff566c5..2530060 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -189,14 +189,12 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
-    // Print the begin tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_START, &high_water_mark);
     size_t buf_offset = 0;
     size_t buf_size = OSL_MAX_STRING;
     OSL_malloc(buffer, char*, OSL_MAX_STRING * sizeof(char));
 
     // Print the content.
-    printf_in_buf(&buffer, &buf_size, &buf_offset, "\n%d\n",
+    printf_in_buf(&buffer, &buf_size, &buf_offset, "%d\n",
                   irregular->nb_statements);
     for (i = 0; i < irregular->nb_statements; i++) {
       printf_in_buf(&buffer, &buf_size, &buf_offset, "%d ",
@@ -234,10 +232,6 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
 
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    // Print the end tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_STOP "\n",
-                         &high_water_mark);
-
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
     free(buffer);
@@ -254,33 +248,27 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
  * osl_irregular_sread function:
  * this function reads a irregular structure from a string complying to the
  * OpenScop textual format and returns a pointer to this irregular structure.
- * The string should contain only one textual format of a irregular structure.
- * \param  extensions The input string where to find a irregular structure.
+ * The input parameter is updated to the position in the input string this
+ * function reach right after reading the irregular structure.
+ * \param[in,out] input The input string where to find a irregular structure.
+ *                      Updated to the position after what has been read.
  * \return A pointer to the irregular structure that has been read.
  */
-osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
-  char *content, *tok;
+osl_irregular_t* osl_irregular_sread(char** input) {
   int i, j;
   osl_irregular_p irregular;
 
-  // FIXME: this is a quick and dirty thing to accept char ** instead
-  //        of char * in the parameter: really do it and update the
-  //        pointer to after what has been read.
-  content = *extensions_fixme;
-
-  if (content == NULL) {
+  if (*input == NULL) {
     OSL_debug("no irregular optional tag");
     return NULL;
   }
 
-  if (strlen(content) > OSL_MAX_STRING)
-    OSL_error("irregular too long");
-
   irregular = osl_irregular_malloc();
 
   // nb statements
-  tok = strtok(content, " \n");
-  irregular->nb_statements = atoi(tok);
+  irregular->nb_statements = osl_util_read_int(NULL, input);
+  if (irregular->nb_statements < 0)
+    OSL_error("negative number of statements");
   OSL_malloc(irregular->predicates, int**,
              sizeof(int*) * irregular->nb_statements);
   OSL_malloc(irregular->nb_predicates, int*,
@@ -289,21 +277,20 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
   // get predicats
   for (i = 0; i < irregular->nb_statements; i++) {
     // nb conditions
-    tok = strtok(NULL, " \n");
-    irregular->nb_predicates[i] = atoi(tok);
+    irregular->nb_predicates[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_predicates[i] < 0)
+      OSL_error("negative number of predicates");
     OSL_malloc(irregular->predicates[i], int*,
                sizeof(int) * irregular->nb_predicates[i]);
-    for (j = 0; j < irregular->nb_predicates[i]; j++) {
-      tok = strtok(NULL, " \n");
-      irregular->predicates[i][j] = atoi(tok);
-    }
+    for (j = 0; j < irregular->nb_predicates[i]; j++)
+      irregular->predicates[i][j] = osl_util_read_int(NULL, input);
   }
   // Get nb predicat
   // control and exits :
-  tok = strtok(NULL, " \n");
-  irregular->nb_control = atoi(tok);
-  tok = strtok(NULL, " \n");
-  irregular->nb_exit = atoi(tok);
+  irregular->nb_control = osl_util_read_int(NULL, input);
+  irregular->nb_exit = osl_util_read_int(NULL, input);
+  if (irregular->nb_control < 0 || irregular->nb_exit < 0)
+    OSL_error("negative number of predicates");
 
   int nb_predicates = irregular->nb_control + irregular->nb_exit;
 
@@ -313,16 +300,17 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
 
   for (i = 0; i < nb_predicates; i++) {
     // Get number of iterators
-    tok = strtok(NULL, " \n");
-    irregular->nb_iterators[i] = atoi(tok);
+    irregular->nb_iterators[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_iterators[i] < 0)
+      OSL_error("negative number of iterators");
     OSL_malloc(irregular->iterators[i], char**,
                sizeof(char*) * irregular->nb_iterators[i]);
 
     // Get iterators
     for (j = 0; j < irregular->nb_iterators[i]; j++)
-      OSL_strdup(irregular->iterators[i][j], strtok(NULL, " \n"));
+      irregular->iterators[i][j] = osl_util_read_string(NULL, input);
     // Get predicat string
-    OSL_strdup(irregular->body[i], strtok(NULL, "\n"));
+    irregular->body[i] = osl_util_read_line(NULL, input);
   }
 
   return irregular;
-- 
2.43.0


From 414a63da4dfc4e186e84e0e2a6b273ded8e5bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 44/55] fix: read lines, words, tags and numbers of any length,
 from files and strings

---
 include/osl/util.h             |   2 +
 source/extensions/dependence.c |  35 ++----
 source/relation.c              | 122 +++++++++-----------
 source/strings.c               |   8 +-
 source/util.c                  | 203 +++++++++++++++++++++++----------
 5 files changed, 215 insertions(+), 155 deletions(-)

diff --git a/include/osl/util.h b/include/osl/util.h
index 1668635..be5f579 100644
--- a/include/osl/util.h
+++ b/include/osl/util.h
@@ -70,8 +70,10 @@ extern "C" {
 /******************************************************************************
  *                            Utility functions                               *
  ******************************************************************************/
+char* osl_util_get_useful_line(FILE*);
 char* osl_util_skip_blank_and_comments(FILE*, char*);
 void osl_util_sskip_blank_and_comments(char**);
+int osl_util_sscan_ints(const char*, int, int*);
 int osl_util_read_int(FILE*, char**);
 char* osl_util_read_string(FILE*, char**);
 char* osl_util_read_line(FILE*, char**);
diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index de90aeb..94127f2 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -372,33 +372,22 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
 
   /* Read dimension information */
   osl_util_sskip_blank_and_comments(input);
-  /* - make a copy of the first row */
-  char str[OSL_MAX_STRING];
-  size_t row_size = 0;
-  char* tmp = *input;
-  while ((*tmp != '\0') && (*tmp != '\n')) {
-    tmp++;
-    row_size += 1;
-  }
-  if (row_size >= OSL_MAX_STRING)
-    row_size = OSL_MAX_STRING - 1;
-  strncpy(str, *input, sizeof(char) * row_size);
-  str[row_size] = '\0';
-  /* - Read the information */
-  int read = sscanf(str, " %d %d %d %d %d %d %d %d",
-                    &dep->source_nb_output_dims_domain,
-                    &dep->source_nb_output_dims_access,
-                    &dep->target_nb_output_dims_domain,
-                    &dep->target_nb_output_dims_access,
-                    &dep->source_nb_local_dims_domain,
-                    &dep->source_nb_local_dims_access,
-                    &dep->target_nb_local_dims_domain,
-                    &dep->target_nb_local_dims_access);
-  *input = tmp;
+  int dims[8];
+  char* line = osl_util_read_line(NULL, input);
+  int read = osl_util_sscan_ints(line, 8, dims);
+  free(line);
   /* - Check we got what we want */
   if (read != 8) {
     OSL_error("not 8 integers to provide dimension information");
   }
+  dep->source_nb_output_dims_domain = dims[0];
+  dep->source_nb_output_dims_access = dims[1];
+  dep->target_nb_output_dims_domain = dims[2];
+  dep->target_nb_output_dims_access = dims[3];
+  dep->source_nb_local_dims_domain = dims[4];
+  dep->source_nb_local_dims_access = dims[5];
+  dep->target_nb_local_dims_domain = dims[6];
+  dep->target_nb_local_dims_access = dims[7];
 
   /* Read the osl_relation */
   dep->domain = osl_relation_psread(input, precision);
diff --git a/source/relation.c b/source/relation.c
index 3b8a756..84bdcb7 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1368,6 +1368,28 @@ return_type:
   return type;
 }
 
+/**
+ * osl_relation_read_cell internal function:
+ * this function reads the next coefficient of a row, on the same line.
+ * \param[in,out] input     The input string where to find the coefficient.
+ *                          Updated to the position after what has been read.
+ * \param[in]     precision The precision of the coefficient.
+ * \param[out]    cell      Where to store the coefficient.
+ */
+static void osl_relation_read_cell(char** input, int precision,
+                                   osl_int_t* cell) {
+  while (**input != '\n' && isspace((unsigned char)**input))
+    (*input)++;
+  if (**input == '\0' || **input == '#' || **input == '\n')
+    OSL_error("not enough columns");
+
+  osl_int_sread(input, precision, cell);
+
+  // Pass the end of the word, if any.
+  while (**input && **input != '#' && !isspace((unsigned char)**input))
+    (*input)++;
+}
+
 /**
  * osl_relation_pread function ("precision read"):
  * this function reads a relation into a file (foo, posibly stdin) and
@@ -1377,15 +1399,14 @@ return_type:
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
-  int i, j, k, n, read = 0;
-  int nb_rows, nb_columns;
-  int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
+  int i, j, k, read = 0;
   int nb_union_parts = 1;
   int may_read_nb_union_parts = 1;
   int read_attributes = 1;
   int first = 1;
   int type;
-  char *c, s[OSL_MAX_STRING], str[OSL_MAX_STRING], *tmp;
+  int header[6];
+  char *c, *line;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   type = osl_relation_read_type(foo, NULL);
@@ -1397,12 +1418,11 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
       read_attributes = 0;
 
       // Read relation attributes.
-      c = osl_util_skip_blank_and_comments(foo, s);
-      if (c == NULL)
+      line = osl_util_get_useful_line(foo);
+      if (line == NULL)
         OSL_error("not enough union parts");
-      read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
-                    &nb_output_dims, &nb_input_dims, &nb_local_dims,
-                    &nb_parameters);
+      read = osl_util_sscan_ints(line, 6, header);
+      free(line);
 
       if (((read != 1) && (read != 6)) ||
           ((read == 1) && (may_read_nb_union_parts != 1)))
@@ -1410,7 +1430,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
       if (read == 1) {
         // Only one number means a union and is the number of parts.
-        nb_union_parts = nb_rows;
+        nb_union_parts = header[0];
         if (nb_union_parts < 1)
           OSL_error("negative nb of union parts");
 
@@ -1422,30 +1442,23 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
     }
 
     // Allocate the union part and fill its properties.
-    relation = osl_relation_pmalloc(precision, nb_rows, nb_columns);
+    relation = osl_relation_pmalloc(precision, header[0], header[1]);
     relation->type = type;
-    relation->nb_output_dims = nb_output_dims;
-    relation->nb_input_dims = nb_input_dims;
-    relation->nb_local_dims = nb_local_dims;
-    relation->nb_parameters = nb_parameters;
+    relation->nb_output_dims = header[2];
+    relation->nb_input_dims = header[3];
+    relation->nb_local_dims = header[4];
+    relation->nb_parameters = header[5];
 
     // Read the matrix of constraints.
     for (i = 0; i < relation->nb_rows; i++) {
-      c = osl_util_skip_blank_and_comments(foo, s);
-      if (c == NULL)
+      line = osl_util_get_useful_line(foo);
+      if (line == NULL)
         OSL_error("not enough rows");
 
-      for (j = 0; j < relation->nb_columns; j++) {
-        if (c == NULL || *c == '#' || *c == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) != 1)
-          OSL_error("not enough columns");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        c += n;
-      }
+      c = line;
+      for (j = 0; j < relation->nb_columns; j++)
+        osl_relation_read_cell(&c, precision, &relation->m[i][j]);
+      free(line);
     }
 
     // Build the linked list of union parts.
@@ -1493,14 +1506,13 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
-  int i, j, k, n, read = 0;
-  int nb_rows, nb_columns;
-  int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
+  int i, j, k, read = 0;
   int nb_union_parts = 1;
   int may_read_nb_union_parts = 1;
   int read_attributes = 1;
   int first = 1;
-  char str[OSL_MAX_STRING], *tmp;
+  int header[6];
+  char* line;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   // Read each part of the union (the number of parts may be updated inside)
@@ -1510,22 +1522,9 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       read_attributes = 0;
       // Read relation attributes.
       osl_util_sskip_blank_and_comments(input);
-      // make a copy of the first row
-      size_t row_size = 0;
-      tmp = *input;
-      while ((*tmp != '\0') && (*tmp != '\n')) {
-        tmp++;
-        row_size += 1;
-      }
-      if (row_size >= OSL_MAX_STRING)
-        row_size = OSL_MAX_STRING - 1;
-      strncpy(str, *input, sizeof(char) * row_size);
-      str[row_size] = '\0';
-
-      read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
-                    &nb_output_dims, &nb_input_dims, &nb_local_dims,
-                    &nb_parameters);
-      *input = tmp;
+      line = osl_util_read_line(NULL, input);
+      read = osl_util_sscan_ints(line, 6, header);
+      free(line);
 
       if (((read != 1) && (read != 6)) ||
           ((read == 1) && (may_read_nb_union_parts != 1)))
@@ -1533,7 +1532,7 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
 
       if (read == 1) {
         // Only one number means a union and is the number of parts.
-        nb_union_parts = nb_rows;
+        nb_union_parts = header[0];
         if (nb_union_parts < 1)
           OSL_error("negative nb of union parts");
 
@@ -1545,11 +1544,11 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
     }
 
     // Allocate the union part and fill its properties.
-    relation = osl_relation_pmalloc(precision, nb_rows, nb_columns);
-    relation->nb_output_dims = nb_output_dims;
-    relation->nb_input_dims = nb_input_dims;
-    relation->nb_local_dims = nb_local_dims;
-    relation->nb_parameters = nb_parameters;
+    relation = osl_relation_pmalloc(precision, header[0], header[1]);
+    relation->nb_output_dims = header[2];
+    relation->nb_input_dims = header[3];
+    relation->nb_local_dims = header[4];
+    relation->nb_parameters = header[5];
 
     // Read the matrix of constraints.
     for (i = 0; i < relation->nb_rows; i++) {
@@ -1557,19 +1556,8 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       if (!(*input))
         OSL_error("not enough rows");
 
-      for (j = 0; j < relation->nb_columns; j++) {
-        while (**input != '\n' && isspace((unsigned char)**input))
-          (*input)++;
-        if (**input == '#' || **input == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) != 1)
-          OSL_error("not enough columns");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        *input += n;
-      }
+      for (j = 0; j < relation->nb_columns; j++)
+        osl_relation_read_cell(input, precision, &relation->m[i][j]);
     }
 
     // Build the linked list of union parts.
diff --git a/source/strings.c b/source/strings.c
index d03d172..a7b861b 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -246,13 +246,15 @@ osl_strings_t* osl_strings_sread(char** const input) {
  * \return The strings structure that has been read.
  */
 osl_strings_t* osl_strings_read(FILE* const file) {
-  char buffer[OSL_MAX_STRING], *start;
+  char *line, *start;
   osl_strings_p strings;
 
-  start = osl_util_skip_blank_and_comments(file, buffer);
-  if (start == NULL)  // End of file.
+  line = osl_util_get_useful_line(file);
+  if (line == NULL)  // End of file.
     return NULL;
+  start = line;
   strings = osl_strings_sread(&start);
+  free(line);
 
   return strings;
 }
diff --git a/source/util.c b/source/util.c
index 31a9117..3e52501 100644
--- a/source/util.c
+++ b/source/util.c
@@ -59,6 +59,8 @@
  ******************************************************************************/
 
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -70,6 +72,50 @@
  *                             Utility functions                              *
  ******************************************************************************/
 
+/**
+ * osl_util_get_useful_line function:
+ * this function reads the open file 'file' line by line, skips blank and
+ * comment lines, and returns the first line where there is some useful
+ * information, whatever its length, without the spaces and the comment around
+ * this information.
+ * \param[in] file The (opened) file to read.
+ * \return The useful line (to be freed), NULL at the end of the file.
+ */
+char* osl_util_get_useful_line(FILE* file) {
+  size_t size = OSL_MAX_STRING, length = 0;
+  int c, comment = 0;
+  char* line;
+
+  OSL_malloc(line, char*, size * sizeof(char));
+  while ((c = fgetc(file)) != EOF) {
+    if (c == '\n') {
+      if (length > 0)
+        break;
+      comment = 0;
+      continue;
+    }
+
+    if (c == '#')
+      comment = 1;
+    if (comment || (length == 0 && isspace(c)))
+      continue;
+
+    if (length + 2 > size) {
+      size += size;
+      OSL_realloc(line, char*, size * sizeof(char));
+    }
+    line[length++] = (char)c;
+  }
+
+  if (length == 0) {
+    free(line);
+    return NULL;
+  }
+  line[length] = '\0';
+
+  return line;
+}
+
 /**
  * osl_util_skip_blank_and_comments "file skip" function:
  * this function reads the open file 'file' line by line and skips
@@ -85,15 +131,17 @@
  * \return The address of the first useful digit in str.
  */
 char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
-  char* start;
+  char* line = osl_util_get_useful_line(file);
 
-  do {
-    start = fgets(str, OSL_MAX_STRING, file);
-    while ((start != NULL) && isspace(*start) && (*start != '\n'))
-      start++;
-  } while (start != NULL && (*start == '#' || *start == '\n'));
+  if (line == NULL)
+    return NULL;
+  if (strlen(line) >= OSL_MAX_STRING)
+    OSL_error("line too long");
 
-  return start;
+  strcpy(str, line);
+  free(line);
+
+  return str;
 }
 
 /**
@@ -119,6 +167,70 @@ void osl_util_sskip_blank_and_comments(char** str) {
   } while (*str && **str && **str == '\n');
 }
 
+/**
+ * osl_util_get_token function:
+ * this function returns the first word (characters up to a space, a comment
+ * or the end) of the first useful line of a file or of a string, whatever its
+ * length. The end of the line is dropped when reading from a file.
+ * \param[in]     file The file where to read the word (if not NULL).
+ * \param[in,out] str  The string where to read the word (if not NULL).
+ *                     Updated to the position after what has been read.
+ * \return The word (to be freed), or NULL if there is none.
+ */
+static char* osl_util_get_token(FILE* file, char** str) {
+  char *line = NULL, *start, *token = NULL;
+  size_t length = 0;
+
+  if (file != NULL) {
+    start = line = osl_util_get_useful_line(file);
+    str = &start;
+  } else {
+    osl_util_sskip_blank_and_comments(str);
+  }
+
+  while (*str != NULL && (*str)[length] && !isspace((*str)[length]) &&
+         (*str)[length] != '#')
+    length++;
+
+  if (length > 0) {
+    OSL_malloc(token, char*, (length + 1) * sizeof(char));
+    memcpy(token, *str, length);
+    token[length] = '\0';
+    *str += length;
+  }
+  free(line);
+
+  return token;
+}
+
+/**
+ * osl_util_sscan_ints function:
+ * this function reads integers separated by spaces at the beginning of a
+ * string. It is an error for an integer not to fit in an int.
+ * \param[in]  str  The string where to read the integers.
+ * \param[in]  max  The maximum number of integers to read.
+ * \param[out] ints Array where to store the integers.
+ * \return The number of integers that have been read.
+ */
+int osl_util_sscan_ints(const char* str, int max, int* ints) {
+  int nb_ints = 0;
+  char* end;
+  long value;
+
+  while (nb_ints < max) {
+    errno = 0;
+    value = strtol(str, &end, 10);
+    if (end == str)
+      break;
+    if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+      OSL_error("integer out of range");
+    ints[nb_ints++] = (int)value;
+    str = end;
+  }
+
+  return nb_ints;
+}
+
 /**
  * osl_util_read_int function:
  * reads an int on the input 'file' or the input string 'str' depending on
@@ -130,30 +242,16 @@ void osl_util_sskip_blank_and_comments(char** str) {
  * \return The int that has been read.
  */
 int osl_util_read_int(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
+  char* token;
   int res;
-  int i = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  if (file != NULL) {
-    // Parse from a file.
-    start = osl_util_skip_blank_and_comments(file, s);
-    if (start == NULL || sscanf(start, " %d", &res) != 1)
-      OSL_error("an int was expected");
-  } else {
-    // Parse from a string.
-    // Skip blank/commented lines.
-    osl_util_sskip_blank_and_comments(str);
-
-    // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%d", &res) != 1)
-      OSL_error("an int was expected");
-  }
+  token = osl_util_get_token(file, str);
+  if (token == NULL || osl_util_sscan_ints(token, 1, &res) != 1)
+    OSL_error("an int was expected");
+  free(token);
 
   return res;
 }
@@ -169,33 +267,15 @@ int osl_util_read_int(FILE* file, char** str) {
  * \return The string that has been read.
  */
 char* osl_util_read_string(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
   char* res;
-  int i = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
-  if (file != NULL) {
-    // Parse from a file.
-    start = osl_util_skip_blank_and_comments(file, s);
-    if (start == NULL || sscanf(start, " %s", res) != 1)
-      OSL_error("a string was expected");
-  } else {
-    // Parse from a string.
-    // Skip blank/commented lines.
-    osl_util_sskip_blank_and_comments(str);
-
-    // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%s", res) != 1)
-      OSL_error("a string was expected");
-  }
+  res = osl_util_get_token(file, str);
+  if (res == NULL)
+    OSL_error("a string was expected");
 
-  OSL_realloc(res, char*, strlen(res) + 1);
   return res;
 }
 
@@ -212,29 +292,27 @@ char* osl_util_read_string(FILE* file, char** str) {
  * \return The line that has been read.
  */
 char* osl_util_read_line(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
   char* res;
-  int i = 0;
+  size_t length;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
   if (file != NULL) {
     // Parse from a file.
-    start = osl_util_skip_blank_and_comments(file, s);
-    while (start && *start && *start != '\n' && *start != '#' &&
-           i < OSL_MAX_STRING - 1)
-      res[i++] = *start++;
+    res = osl_util_get_useful_line(file);
+    if (res == NULL)
+      OSL_strdup(res, "");
   } else {
     // Parse from a string.
     osl_util_sskip_blank_and_comments(str);
-    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING - 1)
-      res[i++] = *((*str)++);
+    length = strcspn(*str, "\n#");
+    OSL_malloc(res, char*, (length + 1) * sizeof(char));
+    memcpy(res, *str, length);
+    res[length] = '\0';
+    *str += length;
   }
 
-  res[i] = '\0';
-  OSL_realloc(res, char*, strlen(res) + 1);
   return res;
 }
 
@@ -253,7 +331,7 @@ char* osl_util_read_line(FILE* file, char** str) {
  * \return The tag name that has been read.
  */
 char* osl_util_read_tag(FILE* file, char** str) {
-  char s[OSL_MAX_STRING], *start;
+  char *line = NULL, *start;
   char* res;
   int i = 0;
 
@@ -262,7 +340,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
 
   // Skip blank/commented lines.
   if (file != NULL) {
-    start = osl_util_skip_blank_and_comments(file, s);
+    start = line = osl_util_get_useful_line(file);
     str = &start;
   } else {
     osl_util_sskip_blank_and_comments(str);
@@ -278,8 +356,8 @@ char* osl_util_read_tag(FILE* file, char** str) {
   (*str)++;
 
   // Read the tag.
-  OSL_malloc(res, char*, (OSL_MAX_STRING + 1) * sizeof(char));
-  res[OSL_MAX_STRING] = '\0';
+  OSL_malloc(res, char*, (strlen(*str) + 1) * sizeof(char));
+  res[0] = '\0';
 
   while (**str && **str != '>') {
     if (((**str >= 'A') && (**str <= 'Z')) ||
@@ -296,6 +374,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
   if (**str != '>')
     OSL_error("a \">\" to end a tag was expected");
   (*str)++;
+  free(line);
 
   return res;
 }
-- 
2.43.0


From 7609166e1ea621e0a179a389fa0c17f41d628bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 45/55] fix: report missing generics at the end of the file

---
 source/generic.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/generic.c b/source/generic.c
index 92cf8dd..b93d51b 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -307,7 +307,9 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   osl_interface_p interface;
 
   tag = osl_util_read_tag(file, NULL);
-  if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
+  if (tag == NULL)
+    OSL_error("a generic was expected");
+  if ((strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
     free(tag);
     return NULL;
-- 
2.43.0


From 74b63555c1dd0121fc62bc3d9e9bf792aa0541c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 46/55] fix: refuse negative numbers of statements and
 extensions

---
 source/scop.c      | 2 ++
 source/statement.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/scop.c b/source/scop.c
index 4180abb..8185992 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -466,6 +466,8 @@ osl_scop_t* osl_scop_pread(FILE* const file, osl_interface_t* const registry,
 
     // Read the number of statements.
     nb_statements = osl_util_read_int(file, NULL);
+    if (nb_statements < 0)
+      OSL_error("negative number of statements");
 
     for (i = 0; i < nb_statements; i++) {
       // Read each statement.
diff --git a/source/statement.c b/source/statement.c
index 3de955b..0eadbc9 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -449,6 +449,8 @@ osl_statement_t* osl_statement_pread(FILE* const file,
 
     // Read the Extensions
     nb_ext = osl_util_read_int(file, NULL);
+    if (nb_ext < 0)
+      OSL_error("negative number of statement extensions");
     for (i = 0; i < nb_ext; i++) {
       new = osl_generic_read_one(file, registry);
       osl_generic_add(&stmt->extension, new);
-- 
2.43.0


From 80ce7100a34b795b68d7ea0f504caa7482f71021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 47/55] fix: set the type of all union parts of the relations
 of a list

---
 source/relation_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index ec373ba..7b4a7c2 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -651,7 +651,7 @@ int osl_relation_list_integrity_check(const osl_relation_list_t* list, int type,
 void osl_relation_list_set_type(osl_relation_list_t* list, int type) {
   while (list != NULL) {
     if (list->elt != NULL) {
-      list->elt->type = type;
+      osl_relation_set_type(list->elt, type);
     }
     list = list->next;
   }
-- 
2.43.0


From 457b3340cbc38fe16d8e4484b9f6bac05c82f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 48/55] fix: dump textual extensions without text

---
 source/extensions/textual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/textual.c b/source/extensions/textual.c
index 1c6782d..6f0a50a 100644
--- a/source/extensions/textual.c
+++ b/source/extensions/textual.c
@@ -93,7 +93,7 @@ void osl_textual_idump(FILE* const file, const osl_textual_t* const textual,
   for (j = 0; j < level; j++)
     fprintf(file, "|\t");
 
-  if (textual != NULL) {
+  if ((textual != NULL) && (textual->textual != NULL)) {
     fprintf(file, "+-- osl_textual_t: ");
 
     // Display the textual message (without any carriage return).
-- 
2.43.0


From 8b04bff635f1fbfbf7dbb15fe1d8a98b86d5f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 49/55] fix: refuse to replace constraints at any row outside
 of the relation

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 84bdcb7..a1f1155 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2096,7 +2096,7 @@ void osl_relation_replace_constraints(osl_relation_t* r1,
 
   if ((r1 == NULL) || (r2 == NULL) || (r1->precision != r2->precision) ||
       (r1->nb_columns != r2->nb_columns) ||
-      ((row + r2->nb_rows) > r1->nb_rows) || (row < 0))
+      (row > r1->nb_rows - r2->nb_rows) || (row < 0))
     OSL_error("relation rows could not be replaced");
 
   for (i = 0; i < r2->nb_rows; i++)
-- 
2.43.0


From 605da51d50ff631ca46e2d1293ca60f83488ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 50/55] fix: refuse negative numbers of regions and dependences

---
 source/extensions/dependence.c | 2 ++
 source/extensions/region.c     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 94127f2..35113e1 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -420,6 +420,8 @@ osl_dependence_t* osl_dependence_psread(char** input, int precision) {
   int i;
   /* Get the number of dependences. */
   int nbdeps = osl_util_read_int(NULL, input);
+  if (nbdeps < 0)
+    OSL_error("negative number of dependences");
 
   /* For each of them, read 1 and shift of the read size. */
   for (i = 0; i < nbdeps; i++) {
diff --git a/source/extensions/region.c b/source/extensions/region.c
index e4b8556..b55f85c 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -304,6 +304,8 @@ osl_region_t* osl_region_sread(char** input) {
   }
 
   const int region_count = osl_util_read_int(NULL, input);
+  if (region_count < 0)
+    OSL_error("negative number of regions");
   if (!region_count)
     return NULL;
 
-- 
2.43.0


From c6e2c87655e2b1f99980e98f677e1ee9024da2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 51/55] fix: refuse negative unroll factors

---
 source/extensions/pluto_unroll.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index 861bcc0..e0e887f 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -227,7 +227,10 @@ osl_pluto_unroll_t* osl_pluto_unroll_sread(char** input) {
     // jam
     p->jam = osl_util_read_int(NULL, input);
     // factor
-    p->factor = (unsigned int)osl_util_read_int(NULL, input);
+    int factor = osl_util_read_int(NULL, input);
+    if (factor < 0)
+      OSL_error("negative unroll factor");
+    p->factor = (unsigned int)factor;
     // Next
     if (osl_util_read_int(NULL, input) == 1) {
       p->next = osl_pluto_unroll_malloc();
-- 
2.43.0


From ac93b3931aabf9fc43d2dc389ffdf1a9689c321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 52/55] fix: print may-write accesses in the SCoPLib format as
 the announced rows

---
 source/relation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index a1f1155..833c198 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -973,8 +973,10 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
   }
 
   is_access_array =
-      (relation->type == OSL_TYPE_READ || relation->type == OSL_TYPE_WRITE ? 1
-                                                                           : 0);
+      (relation->type == OSL_TYPE_READ || relation->type == OSL_TYPE_WRITE ||
+               relation->type == OSL_TYPE_MAY_WRITE
+           ? 1
+           : 0);
 
   // Print each part of the union.
 
-- 
2.43.0


From 22871fbf80972ee50c2b673eebe5fbfde8efa9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 53/55] fix: name all the iterator columns of domains in the
 SCoPLib format

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 833c198..3e435f5 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -735,7 +735,7 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   while (strings[i] != NULL) {
     if (i == 0 ||
         (relation->type != OSL_TYPE_DOMAIN && i >= index_input_dims) ||
-        (relation->type == OSL_TYPE_DOMAIN && i <= index_output_dims) ||
+        (relation->type == OSL_TYPE_DOMAIN && i < index_input_dims) ||
         i >= index_parameters) {
       space = OSL_FMT_LENGTH;
       length =
-- 
2.43.0


From bea9ef989cff99f03ebf5aa93b85c10bd1520549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 54/55] fix: allocate enough space to print long integers and
 names

---
 source/int.c      |  5 ++++-
 source/relation.c | 42 +++++++++++++++++++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/source/int.c b/source/int.c
index aad5037..59d1d4f 100644
--- a/source/int.c
+++ b/source/int.c
@@ -595,10 +595,13 @@ void osl_int_free(const int precision, osl_int_t* const variable) {
  */
 void osl_int_print(FILE* const file, const int precision,
                    const osl_int_t value) {
-  char string[OSL_MAX_STRING];
+  char* string;
 
+  OSL_malloc(string, char*,
+             OSL_MAX_STRING + osl_int_size_in_base_10(precision, value));
   osl_int_sprint(string, precision, value);
   fprintf(file, "%s", string);
+  free(string);
 }
 
 /**
diff --git a/source/relation.c b/source/relation.c
index 3e435f5..4d0ee38 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -273,10 +273,14 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
                                       int* const first, int cst,
                                       const char* const name) {
   char *temp, *body, *sval;
+  size_t size = OSL_MAX_STRING + osl_int_size_in_base_10(precision, val);
 
-  OSL_malloc(temp, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(body, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(sval, char*, OSL_MAX_STRING * sizeof(char));
+  if (name != NULL)
+    size += strlen(name);
+
+  OSL_malloc(temp, char*, size * sizeof(char));
+  OSL_malloc(body, char*, size * sizeof(char));
+  OSL_malloc(sval, char*, size * sizeof(char));
 
   body[0] = '\0';
   sval[0] = '\0';
@@ -816,6 +820,30 @@ int osl_relation_nb_components(const osl_relation_t* relation) {
   return nb_components;
 }
 
+/**
+ * osl_relation_element_size function:
+ * this function returns a size which is large enough to print any element of
+ * a relation union into a string (at least OSL_MAX_STRING).
+ * \param[in] relation The relation whose elements have to be printed.
+ * \return The size to allocate to print any element of the relation.
+ */
+static size_t osl_relation_element_size(const osl_relation_t* relation) {
+  int i, j;
+  size_t size, max = 0;
+
+  for (; relation != NULL; relation = relation->next) {
+    for (i = 0; i < relation->nb_rows; i++) {
+      for (j = 0; j < relation->nb_columns; j++) {
+        size = osl_int_size_in_base_10(relation->precision, relation->m[i][j]);
+        if (size > max)
+          max = size;
+      }
+    }
+  }
+
+  return OSL_MAX_STRING + max;
+}
+
 /**
  * osl_relation_spprint_polylib function:
  * this function pretty-prints the content of an osl_relation_t structure
@@ -832,7 +860,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
   int generated_names = 0;
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
+  char* buffer = NULL;
   char** name_array = NULL;
   char** arrays;
   char* scolumn;
@@ -842,6 +870,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
   if (relation == NULL)
     return osl_util_strdup("# NULL relation\n");
 
+  OSL_malloc(buffer, char*, osl_relation_element_size(relation));
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
 
@@ -914,6 +943,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
   if (generated_names)
     osl_names_free(local_names);
+  free(buffer);
 
   return string;
 }
@@ -943,7 +973,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
   int index_input_dims;
   int index_params;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
+  char* buffer = NULL;
   char** name_array = NULL;
   char** arrays;
   char* scolumn;
@@ -953,6 +983,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
   if (relation == NULL)
     return osl_util_strdup("# NULL relation\n");
 
+  OSL_malloc(buffer, char*, osl_relation_element_size(relation));
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
 
@@ -1171,6 +1202,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
 
   if (generated_names)
     osl_names_free(local_names);
+  free(buffer);
 
   return string;
 }
-- 
2.43.0


From 5dfd33c47ae8e4ccaa968dde2574c4115d54f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:45 +0000
Subject: [PATCH 55/55] fix: ignore null and negative array identifiers when
 naming the accesses

---
 source/extensions/arrays.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 8a075e6..d73834e 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -365,6 +365,9 @@ osl_strings_t* osl_arrays_to_strings(const osl_arrays_t* const arrays) {
   // Build a strings structure for this number of ids.
   strings = osl_strings_generate("Dummy", max_id);
   for (i = 0; i < arrays->nb_names; i++) {
+    // Array identifiers start at 1, accesses cannot refer to others.
+    if (arrays->id[i] < 1)
+      continue;
     free(strings->string[arrays->id[i] - 1]);
     OSL_strdup(strings->string[arrays->id[i] - 1], arrays->names[i]);
   }
-- 
2.43.0

