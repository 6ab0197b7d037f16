From d80010c3908ca09fc5b7ef4b5350ce25a4248d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 01/98] fix: multiply B8 by I64 vectors into an I64 result

---
 core/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/math.c b/core/math.c
index 09cbee2..6dbd188 100644
--- a/core/math.c
+++ b/core/math.c
@@ -995,7 +995,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(TYPE_F64, -TYPE_F64):
             return __BINOP_V_A(x, y, f64, f64, f64, f64, MULF64, len, offset, out);
         case MTYPE2(TYPE_B8, TYPE_I64):
-            return __BINOP_V_V(x, y, b8, i64, b8, i64, MULI64, len, offset, out);
+            return __BINOP_V_V(x, y, b8, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_B8):
             return __BINOP_V_V(x, y, i64, b8, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_F64, TYPE_I32):
-- 
2.43.0


From 28b90296b1d1b616b9f44b570df517a5e11ff71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 02/98] fix: round, floor and ceil of an integral vector return
 the vector, not uninitialised memory

---
 core/math.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/math.c b/core/math.c
index 6dbd188..bd09d9c 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2427,9 +2427,23 @@ obj_p ray_cnt(obj_p x) {
 }
 obj_p ray_min(obj_p x) { return unop_fold(ray_min_partial, x); }
 obj_p ray_max(obj_p x) { return unop_fold(ray_max_partial, x); }
-obj_p ray_round(obj_p x) { return unop_map(ray_round_partial, x); }
-obj_p ray_floor(obj_p x) { return unop_map(ray_floor_partial, x); }
-obj_p ray_ceil(obj_p x) { return unop_map(ray_ceil_partial, x); }
+// Rounding leaves integral vectors as they are
+static inline b8_t is_integral_vector(obj_p x) {
+    switch (x->type) {
+        case TYPE_I32:
+        case TYPE_I64:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_TIMESTAMP:
+            return B8_TRUE;
+        default:
+            return B8_FALSE;
+    }
+}
+
+obj_p ray_round(obj_p x) { return is_integral_vector(x) ? clone_obj(x) : unop_map(ray_round_partial, x); }
+obj_p ray_floor(obj_p x) { return is_integral_vector(x) ? clone_obj(x) : unop_map(ray_floor_partial, x); }
+obj_p ray_ceil(obj_p x) { return is_integral_vector(x) ? clone_obj(x) : unop_map(ray_ceil_partial, x); }
 
 // Binaries
 obj_p ray_sq_sub(obj_p x, obj_p y) { return binop_fold(ray_sq_sub_partial, x, y); }
-- 
2.43.0


From 2d58f50773aa2c974d1b522ba3f422f7d143ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 03/98] fix: floor, ceil and round keep floats beyond the
 64-bit integer range

---
 core/ops.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index 73a3259..50cd145 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -24,6 +24,7 @@
 #ifndef OPS_H
 #define OPS_H
 
+#include <math.h>
 #include "rayforce.h"
 #include "temporal.h"
 #include "string.h"
@@ -187,9 +188,9 @@ extern struct obj_t __ERR_OBJ;
 #define MINF64(x, y) (ISNANF64((x)) ? (y) : ISNANF64((y)) ? (x) : ((x) < (y) ? (x) : (y)))
 #define ROTI32(x, y) (((x) << (y)) | ((x) >> (32 - (y))))
 #define ROTI64(x, y) (((x) << (y)) | ((x) >> (64 - (y))))
-#define ROUNDF64(x) ((ISNANF64((x))) ? NULL_F64 : ((x) >= 0.0 ? (i64_t)((x) + 0.5) : (i64_t)((x) - 0.5)))
-#define FLOORF64(x) ((ISNANF64((x))) ? NULL_F64 : (((x) < 0.0 && (i64_t)(x) != (x)) ? (i64_t)(x) - 1.0 : (i64_t)(x)))
-#define CEILF64(x) ((ISNANF64((x))) ? NULL_F64 : (-FLOORF64(-(x))))
+#define ROUNDF64(x) (ISNANF64((x)) ? NULL_F64 : round((x)))
+#define FLOORF64(x) (ISNANF64((x)) ? NULL_F64 : floor((x)))
+#define CEILF64(x) (ISNANF64((x)) ? NULL_F64 : ceil((x)))
 #define XBARI32(x, y) \
     (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (((x < 0) ? (x + 1 - y) : (x)) / (y) * (y)))
 #define XBARI64(x, y) \
-- 
2.43.0


From cbe6ed11aafa522a6d72d0e04bfc156ad76f1807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 04/98] fix: xbar of a timestamp by a time compares with 64-bit
 nulls

---
 core/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/math.c b/core/math.c
index bd09d9c..9f160c9 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1756,7 +1756,7 @@ obj_p ray_xbar_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(XBARI64(x->i64, y->i64));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp(XBARI32(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
+            return timestamp(XBARI64(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I32):
             return __BINOP_A_V(x, y, i64, i32, timestamp, timestamp, XBARI64, len, offset, out);
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I64):
-- 
2.43.0


From 21264f4c9ad06d193f39a469a63423ff7dad6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 05/98] fix: neg of a 16/32-bit integer vector keeps nulls

---
 core/order.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/order.c b/core/order.c
index ba35120..e9c3387 100644
--- a/core/order.c
+++ b/core/order.c
@@ -469,13 +469,13 @@ obj_p ray_neg(obj_p x) {
             l = x->len;
             res = I64(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I16(x)[i];
+                AS_I64(res)[i] = -i16_to_i64(AS_I16(x)[i]);
             return res;
         case TYPE_I32:
             l = x->len;
             res = I64(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I32(x)[i];
+                AS_I64(res)[i] = -i32_to_i64(AS_I32(x)[i]);
             return res;
         case TYPE_I64:
             l = x->len;
-- 
2.43.0


From ce0e216849e6e177c5a2b5b18a0d10e929207830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 06/98] fix: div of an extreme 64-bit operand is not null

---
 core/math.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/core/math.c b/core/math.c
index 9f160c9..b738d0d 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1371,9 +1371,9 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I32, -TYPE_F64):
             return f64(FDIVF64(i32_to_f64(x->i32), y->f64));
         case MTYPE2(-TYPE_I32, TYPE_I32):
-            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_I64):
-            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_F64):
             return __BINOP_A_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
@@ -1382,13 +1382,13 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I64, -TYPE_I64):
             return f64(FDIVI64(x->i64, y->i64));
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return f64(FDIVI64(x->i64, y->f64));
+            return f64(FDIVF64(i64_to_f64(x->i64), y->f64));
         case MTYPE2(-TYPE_I64, TYPE_I32):
-            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_I64):
-            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_F64):
-            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(-TYPE_F64, -TYPE_I32):
             return f64(FDIVF64(x->f64, i32_to_f64(y->i32)));
@@ -1404,30 +1404,30 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_A_V(x, y, f64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I32, -TYPE_I32):
-            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_I64):
-            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_F64):
             return __BINOP_V_A(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I32):
-            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I64):
-            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_F64):
             return __BINOP_V_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
-            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
-            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I32):
-            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I64):
-            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_F64):
-            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_F64, -TYPE_I32):
             return __BINOP_V_A(x, y, f64, i32, f64, f64, FDIVF64, len, offset, out);
-- 
2.43.0


From a027ebb6b1b7a6d06278b11e9a490a321c544600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 07/98] fix: +, - and * of an I64 vector and an i32 atom read
 the atom as 32-bit

---
 core/math.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/math.c b/core/math.c
index b738d0d..4f8b3d8 100644
--- a/core/math.c
+++ b/core/math.c
@@ -387,6 +387,7 @@ obj_p ray_add_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i64, timestamp, timestamp, ADDI64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -702,6 +703,7 @@ obj_p ray_sub_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i32, time, time, SUBI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -973,6 +975,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, time, time, time, MULI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-- 
2.43.0


From 013e0b066fc9da79de84b2c88030e64edf96bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 08/98] fix: and/or of a boolean vector and a scalar read the
 scalar, not memory after it, in parallel chunks

---
 core/logic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 1bc3316..195b1de 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -51,7 +51,7 @@ static obj_p and_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] && m;
 
@@ -78,7 +78,7 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] || m;
 
-- 
2.43.0


From f0933926d53d6781660f597d904a63d4a80ecd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 09/98] fix: and/or do not modify their operands

---
 core/logic.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/logic.c b/core/logic.c
index 195b1de..8839b79 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -85,6 +85,19 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     return NULL_OBJ;
 }
 
+// The accumulator is updated in place, so it must not be shared
+static obj_p own_obj(obj_p x) {
+    obj_p res;
+
+    if (rc_obj(x) == 1)
+        return x;
+
+    res = copy_obj(x);
+    drop_obj(x);
+
+    return res;
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -111,6 +124,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
         switch (MTYPE2(res->type, next->type)) {
             case MTYPE2(-TYPE_B8, -TYPE_B8):
+                res = own_obj(res);
                 op_func(&res->b8, &next->b8, (raw_p)1, (raw_p)0, (raw_p)1);
                 drop_obj(next);
                 break;
@@ -124,6 +138,8 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                     return err_type(0, 0, 0, 0);
                 }
 
+                res = own_obj(res);
+
                 // Perform element-wise operation using the provided function
                 m = pool_split_by(pool, l, 0);
                 if (m == 1) {
@@ -154,6 +170,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
             case MTYPE2(TYPE_B8, -TYPE_B8):
             va:
+                res = own_obj(res);
                 l = ops_count(res);
                 m = pool_split_by(pool, l, 0);
 
-- 
2.43.0


From ccf60e8ce06fab0745c8bbec67fe5b149111df81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 10/98] fix: compare a date with a timestamp exactly

---
 core/cmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..77d3de9 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -241,7 +241,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, f64, f64, f64, op##F64, len, offset, res);              \
                                                                                                \
             case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):                                          \
-                return b8(op##F64(date_to_timestamp(x->i32), y->i64));                         \
+                return b8(op##I64(date_to_timestamp(x->i32), y->i64));                         \
             case MTYPE2(-TYPE_DATE, TYPE_TIMESTAMP):                                           \
                 return __CMP_A_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_DATE, -TYPE_TIMESTAMP):                                           \
@@ -249,7 +249,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_DATE, TYPE_TIMESTAMP):                                            \
                 return __CMP_V_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):                                          \
-                return b8(op##F64(x->i64, date_to_timestamp(y->i32)));                         \
+                return b8(op##I64(x->i64, date_to_timestamp(y->i32)));                         \
             case MTYPE2(-TYPE_TIMESTAMP, TYPE_DATE):                                           \
                 return __CMP_A_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_TIMESTAMP, -TYPE_DATE):                                           \
-- 
2.43.0


From 4cfc3ee570cd04d2df16dce5da2130ab9132b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 11/98] fix: comparing a value with a partition key column
 writes into the result

---
 core/cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cmp.c b/core/cmp.c
index 77d3de9..4f7e1cc 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -359,7 +359,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
-- 
2.43.0


From 7dcddc41dea80e7ed98da8d10a07b9fd6dcd874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 12/98] fix: comparisons of an enumeration compare the symbols
 it stands for

---
 core/cmp.c | 68 ++++++++++++++----------------------------------------
 1 file changed, 17 insertions(+), 51 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 4f7e1cc..1a5f687 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -70,9 +70,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
 #define __DECLARE_CMP_FN(op)                                                                   \
     obj_p ray_##op##_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p res) {           \
         i64_t i;                                                                               \
-        i64_t *xi, *ei, si;                                                                    \
         b8_t *out;                                                                             \
-        obj_p k, sym, e;                                                                       \
                                                                                                \
         switch (MTYPE2(x->type, y->type)) {                                                    \
             case MTYPE2(-TYPE_B8, -TYPE_B8):                                                   \
@@ -257,55 +255,6 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_TIMESTAMP, TYPE_DATE):                                            \
                 return __CMP_V_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
                                                                                                \
-            case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                              \
-                k = ray_key(x);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
-                                                                                               \
-                e = ENUM_VAL(x);                                                               \
-                                                                                               \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
-                                                                                               \
-                xi = AS_I64(sym);                                                              \
-                ei = AS_I64(e) + offset;                                                       \
-                si = y->i64;                                                                   \
-                out = AS_B8(res) + offset;                                                     \
-                                                                                               \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
-                                                                                               \
-                drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
-                k = ray_key(y);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
-                                                                                               \
-                e = ENUM_VAL(y);                                                               \
-                                                                                               \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
-                                                                                               \
-                xi = AS_I64(x);                                                                \
-                ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
-                out = AS_B8(res) + offset;                                                     \
-                                                                                               \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
-                                                                                               \
-                drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-                                                                                               \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
@@ -376,6 +325,23 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         return map;
     }
 
+    // An enumeration compares as the symbols it stands for
+    if (x->type == TYPE_ENUM) {
+        v = ray_value(x);
+        if (IS_ERR(v))
+            return v;
+        res = cmp_map(op, v, y);
+        drop_obj(v);
+        return res;
+    } else if (y->type == TYPE_ENUM) {
+        v = ray_value(y);
+        if (IS_ERR(v))
+            return v;
+        res = cmp_map(op, x, v);
+        drop_obj(v);
+        return res;
+    }
+
     // Handle TYPE_MAPLIST (lazy list type)
     // Optimization: for MAPLIST comparison with atom, avoid full materialization
     if (x->type == TYPE_MAPLIST && IS_ATOM(y) && y->type < 0) {
-- 
2.43.0


From a3e80827fcd3272ed24f27d5d9ded66028f06e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 13/98] fix: parallel guid comparison does not release its
 result

---
 core/cmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 1a5f687..0dcdf74 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -261,17 +261,17 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
             case MTYPE2(TYPE_NULL, TYPE_NULL):                                                 \
-- 
2.43.0


From 4b1181ed553c002e7c10c473d1aa85a4b7609bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 14/98] fix: copy shared date and time vectors

---
 core/rayforce.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..45f5270 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2973,6 +2973,8 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_C8:
         case TYPE_I16:
         case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From 43ee16266c103b161e1478829c4ba5b4d55591cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 15/98] fix: parallel guid comparison reads each chunk at its
 own offset

---
 core/cmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 0dcdf74..82483f5 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -260,17 +260,17 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[offset + i]);                  \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[0]);                  \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[offset + i]);         \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
-- 
2.43.0


From 0163d9845686e1a0043ae6a0721a5611a5689ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 16/98] fix: med ignores nulls and does not overflow

---
 core/math.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/math.c b/core/math.c
index 4f8b3d8..4686bdd 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2544,7 +2544,10 @@ obj_p ray_avg(obj_p x) {
 
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    i64_t l = ray_cnt(x)->i64;
+    obj_p cnt_obj = ray_cnt(x);
+    i64_t l = IS_ERR(cnt_obj) ? -1 : cnt_obj->i64;
+    drop_obj(cnt_obj);
+
     if (l == 0)
         return f64(NULL_F64);
 
@@ -2577,7 +2580,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I16:
             sort = ray_asc(x);
-            xi16sort = AS_I16(sort);
+            xi16sort = AS_I16(sort) + (sort->len - l);  // nulls are sorted first
             med = (f64_t)((l % 2 == 0) ? (xi16sort[l / 2 - 1] + xi16sort[l / 2]) / 2.0 : xi16sort[l / 2]);
             drop_obj(sort);
             return f64(med);
@@ -2593,8 +2596,8 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I64:
             sort = ray_asc(x);
-            xisort = AS_I64(sort);
-            med = (f64_t)((l % 2 == 0) ? (xisort[l / 2 - 1] + xisort[l / 2]) / 2.0 : xisort[l / 2]);
+            xisort = AS_I64(sort) + (sort->len - l);  // nulls are sorted first
+            med = (f64_t)((l % 2 == 0) ? ((f64_t)xisort[l / 2 - 1] + (f64_t)xisort[l / 2]) / 2.0 : xisort[l / 2]);
             drop_obj(sort);
 
             return f64(med);
-- 
2.43.0


From 0d8152a666f5d7d1bc099b44b0801e51b38bf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 17/98] fix: avg and dev of 32-bit and temporal vectors do not
 wrap, dev does not leak

---
 core/math.c | 53 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/core/math.c b/core/math.c
index 4686bdd..0415a16 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1909,6 +1909,35 @@ obj_p ray_sum_partial(obj_p x, i64_t len, i64_t offset) {
     }
 }
 
+// Sum of 32-bit elements as a 64-bit integer: a mean must not wrap where its elements do not
+obj_p ray_sum_wide_partial(obj_p x, i64_t len, i64_t offset) {
+    switch (x->type) {
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME: {
+            i32_t *lhs = AS_I32(x) + offset;
+            i64_t out = 0;
+            for (i64_t i = 0; i < len; i++)
+                out = FOLD_ADDI64(out, i32_to_i64(lhs[i]));
+            return i64(out);
+        }
+        default:
+            return ray_sum_partial(x, len, offset);
+    }
+}
+
+// Sum of timestamps, which rarely fits in 64 bits
+obj_p ray_sum_timestamp_partial(obj_p x, i64_t len, i64_t offset) {
+    if (x->type != TYPE_TIMESTAMP)
+        return ray_sum_partial(x, len, offset);
+
+    i64_t *lhs = AS_I64(x) + offset;
+    f64_t out = 0.0;
+    for (i64_t i = 0; i < len; i++)
+        out = FOLD_ADDF64(out, i64_to_f64(lhs[i]));
+    return f64(out);
+}
+
 obj_p ray_min_partial(obj_p x, i64_t len, i64_t offset) {
     switch (x->type) {
         case -TYPE_U8:
@@ -2486,9 +2515,9 @@ obj_p ray_avg(obj_p x) {
             drop_obj(r);
             return res;
         case TYPE_I32:
-            l = ray_sum(x);
+            l = unop_fold(ray_sum_wide_partial, x);
             r = ray_cnt(x);
-            res = f64(FDIVI64(i32_to_i64(l->i32), r->i64));
+            res = f64(FDIVI64(l->i64, r->i64));
             drop_obj(l);
             drop_obj(r);
             return res;
@@ -2647,7 +2676,7 @@ obj_p ray_med(obj_p x) {
 
 obj_p ray_dev(obj_p x) {
     obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
+    i64_t l = IS_ERR(cnt_obj) ? -1 : cnt_obj->i64;
     drop_obj(cnt_obj);
 
     if (l == 0)
@@ -2667,16 +2696,20 @@ obj_p ray_dev(obj_p x) {
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-            sum_obj = ray_sum(x);
-            favg = ((f64_t)sum_obj->i32) / (f64_t)l;
+            sum_obj = unop_fold(ray_sum_wide_partial, x);
+            favg = ((f64_t)sum_obj->i64) / (f64_t)l;
             drop_obj(sum_obj);
             break;
         case TYPE_I64:
-        case TYPE_TIMESTAMP:
             sum_obj = ray_sum(x);
             favg = ((f64_t)sum_obj->i64) / (f64_t)l;
             drop_obj(sum_obj);
             break;
+        case TYPE_TIMESTAMP:
+            sum_obj = unop_fold(ray_sum_timestamp_partial, x);
+            favg = sum_obj->f64 / (f64_t)l;
+            drop_obj(sum_obj);
+            break;
         case TYPE_F64:
             sum_obj = ray_sum(x);
             favg = (sum_obj->f64) / (f64_t)l;
@@ -2716,5 +2749,11 @@ obj_p ray_dev(obj_p x) {
             return err_type(TYPE_LIST, x->type, 0, 0);
     }
 
-    return f64(sqrt(ray_sq_sub(x, f64(favg))->f64 / (f64_t)l));
+    obj_p avg_obj = f64(favg);
+    obj_p sq_obj = ray_sq_sub(x, avg_obj);
+    f64_t dev = sqrt(sq_obj->f64 / (f64_t)l);
+    drop_obj(avg_obj);
+    drop_obj(sq_obj);
+
+    return f64(dev);
 }
-- 
2.43.0


From be80f4b1a12d80164b3e51d2b36621bb9eb611e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 18/98] fix: an element of a U8 vector is a U8 value

---
 core/rayforce.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 45f5270..1b84e72 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -765,12 +765,17 @@ obj_p at_idx(obj_p obj, i64_t idx) {
 
     switch (obj->type) {
         case TYPE_B8:
-        case TYPE_U8:
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return b8(AS_B8(obj)[idx]);
             return b8(B8_FALSE);
+        case TYPE_U8:
+            if (idx < 0)
+                idx = obj->len + idx;
+            if (idx >= 0 && idx < (i64_t)obj->len)
+                return u8(AS_U8(obj)[idx]);
+            return u8(0);
         case TYPE_I16:
             if (idx < 0)
                 idx = obj->len + idx;
-- 
2.43.0


From 54dc236e81d673e615e74c6dc256496f24ea57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 19/98] fix: a negative index into a guid vector counts from
 its end

---
 core/rayforce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 1b84e72..8fd4610 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -839,7 +839,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return NULL_OBJ;
         case TYPE_GUID:
             if (idx < 0)
-                idx = obj->len + idx + 1;
+                idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return guid(AS_GUID(obj)[idx]);
             return NULL_OBJ;
-- 
2.43.0


From 327d1eaa5e05946f916b495b3b2a76d4abdf249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 20/98] fix: nil? recognises the null of every type that has
 one

---
 core/rayforce.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 8fd4610..d9afec3 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2098,8 +2098,10 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
 }
 
 b8_t is_null(obj_p obj) {
-    return (obj->type == TYPE_NULL) || (obj->type == -TYPE_I64 && obj->i64 == NULL_I64) ||
-           (obj->type == -TYPE_SYMBOL && obj->i64 == NULL_I64) || (obj->type == -TYPE_F64 && obj->f64 == NULL_F64) ||
+    return (obj->type == TYPE_NULL) || (obj->type == -TYPE_I16 && obj->i16 == NULL_I16) ||
+           (obj->type == -TYPE_I32 && obj->i32 == NULL_I32) || (obj->type == -TYPE_DATE && obj->i32 == NULL_I32) ||
+           (obj->type == -TYPE_TIME && obj->i32 == NULL_I32) || (obj->type == -TYPE_I64 && obj->i64 == NULL_I64) ||
+           (obj->type == -TYPE_SYMBOL && obj->i64 == NULL_I64) || (obj->type == -TYPE_F64 && ISNANF64(obj->f64)) ||
            (obj->type == -TYPE_TIMESTAMP && obj->i64 == NULL_I64) || (obj->type == -TYPE_C8 && obj->c8 == '\0');
 }
 
-- 
2.43.0


From bf4aa94fc2a5f934d8eaa71bb7c97d9703d2221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 21/98] fix: a vector changed in place loses its sorted and
 distinct marks

---
 core/logic.c    |  4 +++-
 core/math.c     |  2 ++
 core/rayforce.c | 13 +++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/logic.c b/core/logic.c
index 8839b79..2c6b0c3 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -89,8 +89,10 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
 static obj_p own_obj(obj_p x) {
     obj_p res;
 
-    if (rc_obj(x) == 1)
+    if (rc_obj(x) == 1) {
+        x->attrs = 0;
         return x;
+    }
 
     res = copy_obj(x);
     drop_obj(x);
diff --git a/core/math.c b/core/math.c
index 0415a16..6c1ddab 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2278,6 +2278,7 @@ obj_p unop_map(raw_p op, obj_p x) {
     pool = runtime_get()->pool;
     n = pool_split_by(pool, l, 0);
     out = (rc_obj(x) == 1) ? clone_obj(x) : vector(x->type, l);
+    out->attrs = 0;  // a reused buffer no longer holds the sorted/distinct values it was marked for
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, l, 0, out);
@@ -2342,6 +2343,7 @@ obj_p binop_map(raw_p op, obj_p x, obj_p y) {
     out = (rc_obj(x) == 1 && IS_VECTOR(x) && x->type == t)   ? clone_obj(x)
           : (rc_obj(y) == 1 && IS_VECTOR(y) && y->type == t) ? clone_obj(y)
                                                              : vector(t, l);
+    out->attrs = 0;  // a reused buffer no longer holds the sorted/distinct values it was marked for
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, obj_p, i64_t, i64_t, obj_p))op)(x, y, l, 0, out);
diff --git a/core/rayforce.c b/core/rayforce.c
index d9afec3..f3dd1cc 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -384,6 +384,10 @@ obj_p resize_obj(obj_p* obj, i64_t len) {
         drop_obj(old_obj);
     }
 
+    // appended elements need not keep the order or the distinctness
+    if (len > (*obj)->len)
+        (*obj)->attrs = 0;
+
     (*obj)->len = len;
 
     return *obj;
@@ -410,6 +414,7 @@ obj_p push_raw(obj_p* obj, raw_p val) {
     }
 
     memcpy((*obj)->raw + off, val, size);
+    (*obj)->attrs = 0;
     (*obj)->len++;
 
     return *obj;
@@ -665,6 +670,7 @@ obj_p ins_raw(obj_p* obj, i64_t idx, raw_p val) {
 
     size = size_of_type((*obj)->type);
     memcpy((*obj)->raw + idx * size, val, size);
+    (*obj)->attrs = 0;
 
     return *obj;
 }
@@ -1407,6 +1413,9 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
         return err_index(idx, (*obj)->len, 0, 0);
     }
 
+    // the new element need not keep the order or the distinctness
+    (*obj)->attrs = 0;
+
     switch (MTYPE2((*obj)->type, val->type)) {
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
@@ -1441,6 +1450,10 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
 
 obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
     i64_t i;
+
+    // the new elements need not keep the order or the distinctness
+    (*obj)->attrs = 0;
+
     switch (MTYPE2((*obj)->type, vals->type)) {
         case MTYPE2(TYPE_C8, -TYPE_C8):
             for (i = 0; i < len; i++)
-- 
2.43.0


From 979b2ced18ba9a5b5d16275901245d91730b8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 22/98] fix: symbols sort by name at every length, one symbol
 and nulls included

---
 core/sort.c | 55 +++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index a202a20..58ab97f 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -794,9 +794,11 @@ static void binary_insertion_sort_numeric(i64_t* indices, i64_t* data, i64_t len
     }
 }
 
-// General counting sort for integer vectors when range is reasonable
-static obj_p counting_sort_i64(obj_p vec, i64_t asc) {
-    i64_t len = vec->len;
+// Counting sort for symbol vectors when range of ids is reasonable.
+// Ids only group equal symbols together, the groups are ordered by the names
+static obj_p counting_sort_symbols(obj_p vec, i64_t asc) {
+    i64_t n, len = vec->len;
+    obj_p used, order;
     if (len == 0)
         return I64(0);
 
@@ -811,6 +813,10 @@ static obj_p counting_sort_i64(obj_p vec, i64_t asc) {
             max_sym = data[i];
     }
 
+    // Null symbol is too far from the others
+    if (min_sym == NULL_I64)
+        return NULL;
+
     i64_t range = max_sym - min_sym + 1;
 
     // Use counting sort only if range is reasonable
@@ -853,23 +859,24 @@ static obj_p counting_sort_i64(obj_p vec, i64_t asc) {
     i64_t* result = AS_I64(indices);
     i64_t pos = 0;
 
-    if (asc > 0) {
-        // Ascending: iterate symbols from min to max
-        for (i64_t sym = 0; sym < range; sym++) {
-            i64_t count = counts[sym];
-            for (i64_t i = 0; i < count; i++) {
-                result[pos++] = buckets[sym][i];
-            }
-        }
-    } else {
-        // Descending: iterate symbols from max to min
-        for (i64_t sym = range - 1; sym >= 0; sym--) {
-            i64_t count = counts[sym];
-            for (i64_t i = 0; i < count; i++) {
-                result[pos++] = buckets[sym][i];
-            }
-        }
+    // Order distinct symbols by name
+    used = SYMBOL(range);
+    n = 0;
+    for (i64_t sym = 0; sym < range; sym++) {
+        if (counts[sym] > 0)
+            AS_SYMBOL(used)[n++] = sym + min_sym;
     }
+    resize_obj(&used, n);
+    order = mergesort_generic_obj(used, asc);
+
+    for (i64_t i = 0; i < n; i++) {
+        i64_t sym = AS_SYMBOL(used)[AS_I64(order)[i]] - min_sym;
+        memcpy(result + pos, buckets[sym], counts[sym] * sizeof(i64_t));
+        pos += counts[sym];
+    }
+
+    drop_obj(used);
+    drop_obj(order);
 
     // Cleanup buckets
     for (i64_t i = 0; i < range; i++)
@@ -885,8 +892,8 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     obj_p res;
     i64_t len = vec->len;
 
-    if (len <= 1)
-        return I64(len);
+    if (len == 0)
+        return I64(0);
 
     // Small arrays: use insertion sort
     if (len <= 32) {
@@ -910,12 +917,10 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
         }
     }
 
-    // For larger arrays: try counting sort first for integer types
+    // For larger arrays: try counting sort first
     switch (vec->type) {
-        case TYPE_I64:
-        case TYPE_TIME:
         case TYPE_SYMBOL:
-            res = counting_sort_i64(vec, asc);
+            res = counting_sort_symbols(vec, asc);
             if (res)
                 return res;
             break;
-- 
2.43.0


From 353f7bf7a811f95545dcd84a7a7a99d20140428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 23/98] fix: a string can be reordered by an index vector

---
 core/rayforce.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index f3dd1cc..e86d5c7 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1365,6 +1365,7 @@ obj_p at_obj(obj_p obj, obj_p idx) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_GUID, TYPE_I64):
+        case MTYPE2(TYPE_C8, TYPE_I64):
         case MTYPE2(TYPE_LIST, TYPE_I64):
         case MTYPE2(TYPE_ENUM, TYPE_I64):
         case MTYPE2(TYPE_TABLE, TYPE_I64):
-- 
2.43.0


From f2f2d73ca3fcaaae7ae13aa60db3a2d776734977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 24/98] fix: floats inside lists have a total order, nulls
 first; equal guid vectors compare equal

---
 core/rayforce.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index e86d5c7..070f8f1 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2119,6 +2119,14 @@ b8_t is_null(obj_p obj) {
            (obj->type == -TYPE_TIMESTAMP && obj->i64 == NULL_I64) || (obj->type == -TYPE_C8 && obj->c8 == '\0');
 }
 
+// total order of floats: null first
+static i64_t cmp_f64(f64_t a, f64_t b) {
+    if (EQF64(a, b))
+        return 0;
+
+    return (ISNANF64(a) || (!ISNANF64(b) && a < b)) ? -1 : 1;
+}
+
 i64_t cmp_obj(obj_p a, obj_p b) {
     i64_t i, l, d;
     obj_p obj_a, obj_b;
@@ -2182,10 +2190,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
             str_b = str_from_symbol(b->i64);
             return strcmp(str_a, str_b);
         case -TYPE_F64:
-            return (ISNANF64(a->f64) && ISNANF64(b->f64))   ? 0
-                   : (ISNANF64(a->f64) || ISNANF64(b->f64)) ? 1
-                   : (ABSF64(a->f64 - b->f64) < 1e-16)      ? 0
-                                                            : 1;
+            return cmp_f64(a->f64, b->f64);
         case -TYPE_GUID:
             return memcmp(AS_GUID(a), AS_GUID(b), sizeof(guid_t));
         case TYPE_B8:
@@ -2200,7 +2205,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_I16:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (i64_t)(AS_I16(a)[i] - AS_I16(b)[i]);
+                d = (i64_t)AS_I16(a)[i] - (i64_t)AS_I16(b)[i];
                 if (d != 0)
                     return d;
             }
@@ -2211,7 +2216,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_TIME:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (i64_t)(AS_I32(a)[i] - AS_I32(b)[i]);
+                d = (i64_t)AS_I32(a)[i] - (i64_t)AS_I32(b)[i];
                 if (d != 0)
                     return d;
             }
@@ -2241,15 +2246,19 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_F64:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (ISNANF64(AS_F64(a)[i]) && ISNANF64(AS_F64(b)[i]))   ? 0
-                    : (ISNANF64(AS_F64(a)[i]) || ISNANF64(AS_F64(b)[i])) ? 1
-                    : (ABSF64(AS_F64(a)[i] - AS_F64(b)[i]) < 1e-16)      ? 0
-                                                                         : 1;
+                d = cmp_f64(AS_F64(a)[i], AS_F64(b)[i]);
                 if (d != 0)
                     return d;
             }
             return a->len - b->len;
 
+        case TYPE_GUID:
+            l = a->len < b->len ? a->len : b->len;
+            d = memcmp(AS_GUID(a), AS_GUID(b), l * sizeof(guid_t));
+            if (d != 0)
+                return d;
+            return a->len - b->len;
+
         case TYPE_LIST:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-- 
2.43.0


From fc24584ef9ddc1a20d80a9fe15bb45d8d2ffd123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 25/98] fix: sorting indices of a vector already sorted the
 other way keep equal elements in order

---
 core/order.c | 4 ++--
 core/sort.c  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/order.c b/core/order.c
index e9c3387..fc08a38 100644
--- a/core/order.c
+++ b/core/order.c
@@ -527,7 +527,7 @@ obj_p ray_rank(obj_p x) {
         drop_obj(n);
         return res;
     }
-    if (x->attrs & ATTR_DESC) {
+    if ((x->attrs & ATTR_DESC) && (x->attrs & ATTR_DISTINCT)) {
         l = x->len;
         res = I64(l);
         if (IS_ERR(res))
@@ -629,7 +629,7 @@ obj_p ray_xrank(obj_p y, obj_p x) {
         pool_map(l, xrank_asc_worker, &ctx);
         return res;
     }
-    if (y->attrs & ATTR_DESC) {
+    if ((y->attrs & ATTR_DESC) && (y->attrs & ATTR_DISTINCT)) {
         xrank_asc_ctx_t ctx = {AS_I64(res), n_buckets, l};
         pool_map(l, xrank_desc_worker, &ctx);
         return res;
diff --git a/core/sort.c b/core/sort.c
index 58ab97f..1ec39fc 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -442,7 +442,8 @@ obj_p ray_sort_asc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_DESC) {
+    // reversing keeps the order of equal elements only when there are none
+    if ((vec->attrs & ATTR_DESC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
@@ -703,7 +704,8 @@ obj_p ray_sort_desc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_ASC) {
+    // reversing keeps the order of equal elements only when there are none
+    if ((vec->attrs & ATTR_ASC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
-- 
2.43.0


From 6d2041abbf35d72d6a69fb8e97e1636cfad23d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 26/98] fix: a sorted dictionary is not marked as a sorted
 vector

---
 core/order.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/order.c b/core/order.c
index fc08a38..a7c7173 100644
--- a/core/order.c
+++ b/core/order.c
@@ -147,7 +147,6 @@ obj_p ray_asc(obj_p x) {
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
 
             res = dict(sorted_keys, sorted_vals);
-            res->attrs |= ATTR_ASC | distinct;
             drop_obj(idx);
             return res;
         }
@@ -233,7 +232,6 @@ obj_p ray_desc(obj_p x) {
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
 
             res = dict(sorted_keys, sorted_vals);
-            res->attrs |= ATTR_DESC | distinct;
             drop_obj(idx);
             return res;
         }
-- 
2.43.0


From 8c5fa4551fea5883476aa12ff6ae5abb7b77d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 27/98] fix: rank and xrank refuse a dictionary

---
 core/order.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/order.c b/core/order.c
index a7c7173..8a46553 100644
--- a/core/order.c
+++ b/core/order.c
@@ -518,6 +518,9 @@ obj_p ray_rank(obj_p x) {
     i64_t l;
     obj_p perm, res;
 
+    if (!IS_VECTOR(x))
+        return err_type(TYPE_LIST, x->type, 0, 0);
+
     // Fast path for sorted vectors
     if (x->attrs & ATTR_ASC) {
         obj_p n = i64(x->len);
@@ -616,6 +619,9 @@ obj_p ray_xrank(obj_p y, obj_p x) {
     if (n_buckets <= 0)
         return err_domain(0, 0);
 
+    if (!IS_VECTOR(y))
+        return err_type(TYPE_LIST, y->type, 0, 0);
+
     l = y->len;
     res = I64(l);
     if (IS_ERR(res))
-- 
2.43.0


From 68055cb05eb4e7a657bdcd6740b7139115e3f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 28/98] fix: sorting a dictionary does not leak the index
 vector

---
 core/sort.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index 1ec39fc..85beb98 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -429,7 +429,7 @@ obj_p ray_sort_asc_f64(obj_p vec) {
 
 obj_p ray_sort_asc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, res;
 
     if (len == 0)
         return I64(0);
@@ -473,7 +473,12 @@ obj_p ray_sort_asc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, 1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_asc(AS_LIST(vec)[1]));
+            indices = ray_sort_asc(AS_LIST(vec)[1]);
+            if (IS_ERR(indices))
+                return indices;
+            res = at_obj(AS_LIST(vec)[0], indices);
+            drop_obj(indices);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -691,7 +696,7 @@ obj_p ray_sort_desc_f64(obj_p vec) {
 
 obj_p ray_sort_desc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, res;
 
     if (len == 0)
         return I64(0);
@@ -735,7 +740,12 @@ obj_p ray_sort_desc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, -1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_desc(AS_LIST(vec)[1]));
+            indices = ray_sort_desc(AS_LIST(vec)[1]);
+            if (IS_ERR(indices))
+                return indices;
+            res = at_obj(AS_LIST(vec)[0], indices);
+            drop_obj(indices);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0


From 30553cfe52b68bb940424531d7c323ddd5fe49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 29/98] fix: reverse accepts 16-bit integer and guid vectors,
 so asc/desc of them do too

---
 core/compose.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..d9a4a11 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -156,6 +156,14 @@ obj_p ray_reverse(obj_p x) {
                 AS_C8(res)[l - i - 1] = AS_C8(x)[i];
             break;
 
+        case TYPE_I16:
+            l = x->len;
+            res = I16(l);
+
+            for (i = 0; i < l; i++)
+                AS_I16(res)[i] = AS_I16(x)[l - i - 1];
+            break;
+
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -184,6 +192,14 @@ obj_p ray_reverse(obj_p x) {
                 AS_F64(res)[i] = AS_F64(x)[l - i - 1];
             break;
 
+        case TYPE_GUID:
+            l = x->len;
+            res = GUID(l);
+
+            for (i = 0; i < l; i++)
+                memcpy(AS_GUID(res)[i], AS_GUID(x)[l - i - 1], sizeof(guid_t));
+            break;
+
         case TYPE_LIST:
             l = x->len;
             res = vector(TYPE_LIST, l);
-- 
2.43.0


From de9b31f68e39e57fb7306e3e55e99e3dc5a6404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 30/98] fix: take from an empty vector does not divide by zero,
 an impossible count is a limit error

---
 core/items.c    | 29 ++++++++++++++++++++---------
 core/rayforce.c |  6 ++++++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/core/items.c b/core/items.c
index b25ca46..9b5ea64 100644
--- a/core/items.c
+++ b/core/items.c
@@ -395,6 +395,9 @@ obj_p ray_filter(obj_p x, obj_p y) {
     }
 }
 
+// the largest vector the heap can address
+#define TAKE_LIMIT (1ll << 34)
+
 obj_p ray_take(obj_p from, obj_p count) {
     i64_t i, j, f, l, m, n, size, start;
     obj_p k, s, v, res;
@@ -429,6 +432,14 @@ obj_p ray_take(obj_p from, obj_p count) {
         }
     }
 
+    // more elements than any pool can hold
+    if (m < 0 || (m > TAKE_LIMIT && !is_range))
+        return err_limit(0);
+
+    // nothing to repeat
+    if (ops_count(from) == 0 && !is_range && from->type != TYPE_NULL)
+        return clone_obj(from);
+
     switch (from->type) {
         case TYPE_B8:
         case TYPE_U8:
@@ -441,7 +452,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
                 for (i = 0; i < m; i++)
@@ -470,7 +481,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = I16(m);
                 for (i = 0; i < m; i++)
@@ -499,7 +510,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
                 for (i = 0; i < m; i++)
@@ -531,7 +542,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
                 for (i = 0; i < m; i++)
@@ -561,7 +572,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = GUID(m);
                 for (i = 0; i < m; i++)
@@ -590,7 +601,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 for (i = 0; i < m; i++) {
                     push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
@@ -616,7 +627,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = I64(m);
                 for (i = 0; i < m; i++) {
@@ -647,7 +658,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
             }
             res = vector(TYPE_LIST, m);
@@ -700,7 +711,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(TYPE_LIST, m);
                 for (i = 0; i < m; i++)
diff --git a/core/rayforce.c b/core/rayforce.c
index 070f8f1..bb3248d 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -234,6 +234,9 @@ obj_p timestamp(i64_t val) {
     return t;
 }
 
+// the largest number of elements the heap can address
+#define VECTOR_LIMIT (1ll << 38)
+
 obj_p vector(i8_t type, i64_t len) {
     i8_t t;
     i64_t data_size;
@@ -248,6 +251,9 @@ obj_p vector(i8_t type, i64_t len) {
     else
         t = TYPE_LIST;
 
+    if (len < 0 || len > VECTOR_LIMIT)
+        return err_limit(0);
+
     data_size = len * size_of_type(t);
     vec = (obj_p)heap_alloc(sizeof(struct obj_t) + data_size);
 
-- 
2.43.0


From f8bb9ecbd7c3133dbdf8066388d94887b8b01a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 31/98] fix: hash tables place negative keys inside the table

---
 core/hash.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/hash.c b/core/hash.c
index 4a9d51e..d4f4a8a 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -113,7 +113,7 @@ i64_t ht_oa_tab_next(obj_p *obj, i64_t key) {
         size = AS_LIST(*obj)[0]->len;
         keys = AS_I64(AS_LIST(*obj)[0]);
 
-        start = (i64_t)key % size;
+        start = (u64_t)key % (u64_t)size;
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -156,7 +156,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
         keys = AS_I64(AS_LIST(*obj)[0]);
         vals = AS_I64(AS_LIST(*obj)[1]);
 
-        start = (i64_t)key % size;
+        start = (u64_t)key % (u64_t)size;
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -168,7 +168,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
             }
 
             if (keys[idx] == key)
-                return vals[i];
+                return vals[idx];
         }
 
         ht_oa_rehash(obj, NULL, NULL);
@@ -211,7 +211,7 @@ i64_t ht_oa_tab_get(obj_p obj, i64_t key) {
     size = AS_LIST(obj)[0]->len;
     keys = AS_I64(AS_LIST(obj)[0]);
 
-    start = (i64_t)key % size;
+    start = (u64_t)key % (u64_t)size;
 
     for (i = start; i < size + start; i++) {
         idx = i % size;
-- 
2.43.0


From 16ddfa58784d21ac910cdb51d34d781bd307c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 32/98] fix: distinct and find of vectors with nulls or a wide
 value range

---
 core/index.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/core/index.c b/core/index.c
index 4d27587..feef3e2 100644
--- a/core/index.c
+++ b/core/index.c
@@ -399,6 +399,12 @@ obj_p index_scope_partial_i64(i64_t len, i64_t *values, i64_t *indices, i64_t of
     return NULL_OBJ;
 }
 
+// number of values between min and max, inclusive; INF_I64 if it does not fit
+static i64_t index_range_i64(i64_t min, i64_t max) {
+    u64_t diff = (u64_t)max - (u64_t)min;
+    return diff >= (u64_t)INF_I64 ? INF_I64 : (i64_t)diff + 1;
+}
+
 index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
     i64_t i, chunks, base_chunk;
     i64_t min, max;
@@ -431,7 +437,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
         }
     }
     timeit_tick("index scope");
-    return (index_scope_t){min, max, (i64_t)(max - min + 1)};
+    return (index_scope_t){min, max, index_range_i64(min, max)};
 }
 
 obj_p index_distinct_i8(i8_t values[], i64_t len) {
@@ -504,7 +510,7 @@ obj_p index_distinct_i32(i32_t values[], i64_t len) {
         memset(out, 0, sizeof(i32_t) * scope.range);
 
         for (i = 0; i < len; i++)
-            out[values[i] - scope.min] = 1;
+            out[values[i] - scope.min] = values[i] != NULL_I32;
 
         // compact values
         for (i = 0, j = 0; i < scope.range; i++) {
@@ -562,7 +568,7 @@ obj_p index_distinct_i64(i64_t values[], i64_t len) {
 
         for (i = 0; i < len; i++)
             // TODO need bench // if (out[values[i] - scope.min] == 0)
-            out[values[i] - scope.min] = 1;
+            out[values[i] - scope.min] = values[i] != NULL_I64;
 
         // compact keys
         for (i = 0, j = 0; i < scope.range; i++) {
@@ -1484,7 +1490,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    dict = ht_oa_create(xl, TYPE_I32);
+    dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
         val = ht_oa_tab_next(&dict, (i64_t)x[i]);
@@ -1506,7 +1512,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
 
 obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t i, range;
-    i64_t min, max, val, *d, *r;
+    i64_t min, max, val, nl = NULL_I64, *d, *r;
     obj_p vec, dict;
 
     if (xl == 0)
@@ -1527,7 +1533,7 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
         return vec;
     }
 
-    range = max - min + 1;
+    range = index_range_i64(min, max);
 
     if (range <= MAX_RANGE) {
         dict = I64(range);
@@ -1537,15 +1543,16 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
             d[i] = NULL_I64;
 
         for (i = 0; i < xl; i++) {
+            if (x[i] < min || x[i] > max)
+                continue;
             val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range && d[val] == NULL_I64)
+            if (d[val] == NULL_I64)
                 d[val] = (i64_t)i;
         }
 
-        for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            r[i] = (val < 0 || val >= (i64_t)range) ? NULL_I64 : d[val];
-        }
+        for (i = 0; i < yl; i++)
+            r[i] = (y[i] < min || y[i] > max) ? NULL_I64 : d[y[i] - min];
+
 
         drop_obj(dict);
 
@@ -1556,6 +1563,12 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
+        // null marks an empty slot, so it is kept aside
+        if (x[i] == NULL_I64) {
+            if (nl == NULL_I64)
+                nl = i;
+            continue;
+        }
         val = ht_oa_tab_next(&dict, x[i]);
         if (AS_I64(AS_LIST(dict)[0])[val] == NULL_I64) {
             AS_I64(AS_LIST(dict)[0])[val] = x[i];
@@ -1564,6 +1577,10 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     }
 
     for (i = 0; i < yl; i++) {
+        if (y[i] == NULL_I64) {
+            r[i] = nl;
+            continue;
+        }
         val = ht_oa_tab_get(dict, y[i]);
         r[i] = val == NULL_I64 ? NULL_I64 : AS_I64(AS_LIST(dict)[1])[val];
     }
-- 
2.43.0


From b0993f96078e48bcdfa1e0b736065fed757ce5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 33/98] fix: lists holding values of any type can be searched
 and grouped; equal floats hash alike

---
 core/hash.c | 43 ++++++++++++++++++++++++++++++++++++++++---
 core/hash.h |  1 +
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/core/hash.c b/core/hash.c
index d4f4a8a..b54d270 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -246,10 +246,30 @@ i64_t ht_oa_tab_get_with(obj_p obj, i64_t key, hash_f hash, cmp_f cmp, raw_p see
     return NULL_I64;
 }
 
+// equal floats hash alike: zeros of either sign, nulls of any payload
+u64_t hash_f64(f64_t x) {
+    u64_t bits;
+
+    if (ISNANF64(x))
+        x = NULL_F64;
+    else if (x == 0.0)
+        x = 0.0;
+
+    memcpy(&bits, &x, sizeof(bits));
+
+    return bits;
+}
+
 u64_t hash_index_obj(obj_p obj) {
     u64_t hash, len, i;
 
     switch (obj->type) {
+        case TYPE_NULL:
+            return 0;
+        case -TYPE_B8:
+        case -TYPE_U8:
+        case -TYPE_C8:
+            return (u64_t)obj->u8;
         case -TYPE_I16:
             return (u64_t)obj->i16;
         case -TYPE_I32:
@@ -261,9 +281,11 @@ u64_t hash_index_obj(obj_p obj) {
         case -TYPE_TIMESTAMP:
             return (u64_t)obj->i64;
         case -TYPE_F64:
-            return (u64_t)obj->f64;
+            return hash_f64(obj->f64);
         case -TYPE_GUID:
             return hash_index_u64(*(u64_t *)AS_GUID(obj), *((u64_t *)AS_GUID(obj) + 1));
+        case TYPE_B8:
+        case TYPE_U8:
         case TYPE_C8:
             return str_hash(AS_C8(obj), obj->len);
         case TYPE_I16:
@@ -288,10 +310,25 @@ u64_t hash_index_obj(obj_p obj) {
         case TYPE_F64:
             len = obj->len;
             for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
-                hash = hash_index_u64((u64_t)AS_F64(obj)[i], hash);
+                hash = hash_index_u64(hash_f64(AS_F64(obj)[i]), hash);
+            return hash;
+        case TYPE_GUID:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++) {
+                hash = hash_index_u64(((u64_t *)AS_GUID(obj))[2 * i], hash);
+                hash = hash_index_u64(((u64_t *)AS_GUID(obj))[2 * i + 1], hash);
+            }
+            return hash;
+        case TYPE_LIST:
+        case TYPE_DICT:
+        case TYPE_TABLE:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(hash_index_obj(AS_LIST(obj)[i]), hash);
             return hash;
         default:
-            PANIC("type: %d", obj->type);
+            // compared by identity or by type only: any constant is a valid hash
+            return (u64_t)(u8_t)obj->type;
     }
 }
 
diff --git a/core/hash.h b/core/hash.h
index 994157f..a5b9293 100644
--- a/core/hash.h
+++ b/core/hash.h
@@ -82,6 +82,7 @@ i64_t hash_cmp_guid(i64_t a, i64_t b, raw_p seed);
 i64_t hash_cmp_i64(i64_t a, i64_t b, raw_p seed);
 
 // Special hashes
+u64_t hash_f64(f64_t x);
 u64_t hash_index_obj(obj_p obj);
 inline __attribute__((always_inline)) u64_t hash_index_u64(u64_t h, u64_t k) {
     const u64_t s = U64_HASH_SEED;
-- 
2.43.0


From a45e03b65f11aaec49746e19c8bcf7480223000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 34/98] fix: grouping by nulls and by floats that are equal but
 not identical

---
 core/index.c | 96 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 78 insertions(+), 18 deletions(-)

diff --git a/core/index.c b/core/index.c
index feef3e2..55aa40b 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1721,6 +1721,7 @@ typedef struct __group_chunk_ctx_t {
     i64_t *filter;
     i64_t *out;
     i64_t *local_groups;  // per-chunk group count
+    i64_t *null_groups;   // per-chunk local group of the null key, or null
     hash_f hash;
     cmp_f cmp;
     obj_p *local_hts;   // per-chunk hash tables
@@ -1729,7 +1730,7 @@ typedef struct __group_chunk_ctx_t {
 
 // Phase 1: Each chunk builds its own local hash table and assigns local group IDs
 obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx) {
-    i64_t i, idx, n, groups;
+    i64_t i, idx, n, groups, null_group = NULL_I64;
     i64_t *k, *v, *keys, *filter, *out;
     obj_p ht;
     hash_f hash;
@@ -1747,6 +1748,13 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
     if (filter) {
         for (i = offset; i < offset + len; i++) {
             n = keys[filter[i]];
+            // null marks an empty slot, so its group is kept aside
+            if (n == NULL_I64) {
+                if (null_group == NULL_I64)
+                    null_group = groups++;
+                out[i] = null_group;
+                continue;
+            }
             idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
             k = AS_I64(AS_LIST(ht)[0]);
             v = AS_I64(AS_LIST(ht)[1]);
@@ -1761,6 +1769,13 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
     } else {
         for (i = offset; i < offset + len; i++) {
             n = keys[i];
+            // null marks an empty slot, so its group is kept aside
+            if (n == NULL_I64) {
+                if (null_group == NULL_I64)
+                    null_group = groups++;
+                out[i] = null_group;
+                continue;
+            }
             idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
             k = AS_I64(AS_LIST(ht)[0]);
             v = AS_I64(AS_LIST(ht)[1]);
@@ -1776,6 +1791,7 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
 
     i64_t chunk_idx = offset / ctx->chunk_size;
     ctx->local_groups[chunk_idx] = groups;
+    ctx->null_groups[chunk_idx] = null_group;
     ctx->local_hts[chunk_idx] = ht;
 
     return NULL_OBJ;
@@ -1793,8 +1809,8 @@ obj_p index_group_chunk_remap(i64_t len, i64_t offset, i64_t *out, i64_t *remap)
 
 i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t len, hash_f hash, cmp_f cmp) {
     i64_t i, j, parts, groups, chunk, last_chunk;
-    i64_t idx, n, *k, *v, *remap;
-    i64_t offsets[32], local_groups[32];  // Support up to 32 chunks
+    i64_t idx, n, null_group = NULL_I64, *k, *v, *remap, *order;
+    i64_t offsets[32], local_groups[32], null_groups[32];  // Support up to 32 chunks
     obj_p local_hts[32];
     pool_p pool;
     obj_p ht, merged_ht, res;
@@ -1811,6 +1827,13 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         if (filter) {
             for (i = 0; i < len; i++) {
                 n = keys[filter[i]];
+                // null marks an empty slot, so its group is kept aside
+                if (n == NULL_I64) {
+                    if (null_group == NULL_I64)
+                        null_group = groups++;
+                    out[i] = null_group;
+                    continue;
+                }
                 idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
                 k = AS_I64(AS_LIST(ht)[0]);
                 v = AS_I64(AS_LIST(ht)[1]);
@@ -1825,6 +1848,13 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         } else {
             for (i = 0; i < len; i++) {
                 n = keys[i];
+                // null marks an empty slot, so its group is kept aside
+                if (n == NULL_I64) {
+                    if (null_group == NULL_I64)
+                        null_group = groups++;
+                    out[i] = null_group;
+                    continue;
+                }
                 idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
                 k = AS_I64(AS_LIST(ht)[0]);
                 v = AS_I64(AS_LIST(ht)[1]);
@@ -1855,6 +1885,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     ctx.filter = filter;
     ctx.out = out;
     ctx.local_groups = local_groups;
+    ctx.null_groups = null_groups;
     ctx.hash = hash;
     ctx.cmp = cmp;
     ctx.local_hts = local_hts;
@@ -1863,6 +1894,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     // Initialize
     for (i = 0; i < parts; i++) {
         local_groups[i] = 0;
+        null_groups[i] = NULL_I64;
         local_hts[i] = NULL_OBJ;
         offsets[i] = i * chunk;
     }
@@ -1890,28 +1922,42 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         i64_t *ht_keys = AS_I64(AS_LIST(ht)[0]);
         i64_t *ht_vals = AS_I64(AS_LIST(ht)[1]);
 
+        // Keys of this chunk in order of their first appearance
+        order = (i64_t *)heap_alloc((local_groups[i] + 1) * sizeof(i64_t));
+        for (j = 0; j < ht_len; j++)
+            if (ht_keys[j] != NULL_I64)
+                order[ht_vals[j]] = ht_keys[j];
+        if (null_groups[i] != NULL_I64)
+            order[null_groups[i]] = NULL_I64;
+
         // Create remap array for this chunk's local IDs -> global IDs
-        remap = (i64_t *)heap_alloc(local_groups[i] * sizeof(i64_t));
+        remap = (i64_t *)heap_alloc((local_groups[i] + 1) * sizeof(i64_t));
 
-        for (j = 0; j < ht_len; j++) {
-            if (ht_keys[j] != NULL_I64) {
-                i64_t local_id = ht_vals[j];
-                n = ht_keys[j];
+        for (j = 0; j < local_groups[i]; j++) {
+            n = order[j];
 
-                // Check if this key exists in merged table
-                idx = ht_oa_tab_next_with(&merged_ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(merged_ht)[0]);
-                v = AS_I64(AS_LIST(merged_ht)[1]);
+            if (n == NULL_I64) {
+                if (null_group == NULL_I64)
+                    null_group = groups++;
+                remap[j] = null_group;
+                continue;
+            }
 
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
+            // Check if this key exists in merged table
+            idx = ht_oa_tab_next_with(&merged_ht, n, hash, cmp, NULL);
+            k = AS_I64(AS_LIST(merged_ht)[0]);
+            v = AS_I64(AS_LIST(merged_ht)[1]);
 
-                remap[local_id] = v[idx];
+            if (k[idx] == NULL_I64) {
+                k[idx] = n;
+                v[idx] = groups++;
             }
+
+            remap[j] = v[idx];
         }
 
+        heap_free(order);
+
         // Remap this chunk's output values
         i64_t chunk_start = offsets[i];
         i64_t chunk_len = (i < parts - 1) ? chunk : last_chunk;
@@ -2122,7 +2168,21 @@ obj_p index_group_i64(obj_p obj, obj_p filter) {
     return index_group_i64_scoped(obj, filter, scope);
 }
 
-obj_p index_group_f64(obj_p obj, obj_p filter) { return index_group_i64_unscoped(obj, filter); }
+obj_p index_group_f64(obj_p obj, obj_p filter) {
+    i64_t i, len;
+    obj_p bits, res;
+
+    // equal floats may differ in bits
+    len = obj->len;
+    bits = I64(len);
+    for (i = 0; i < len; i++)
+        AS_I64(bits)[i] = (i64_t)hash_f64(AS_F64(obj)[i]);
+
+    res = index_group_i64_unscoped(bits, filter);
+    drop_obj(bits);
+
+    return res;
+}
 
 obj_p index_group_guid(obj_p obj, obj_p filter) {
     i64_t i, j, len;
-- 
2.43.0


From 00d823e15dcd8d577d239cb8718ec30af20a3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 35/98] fix: group by 16/32-bit, date, time and null float
 keys, by an enumeration, and over no rows at all

---
 core/compose.c |  3 +++
 core/index.c   | 53 ++++++++++++++++++++++++++++++++++++++++++--------
 core/ops.c     | 14 ++++++++++---
 3 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index d9a4a11..a70cf09 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1088,6 +1088,9 @@ obj_p ray_group(obj_p x) {
     obj_p k, v, index;
 
     index = index_group(x, NULL_OBJ);
+    if (IS_ERR(index))
+        return index;
+
     v = aggr_row(x, index);
     k = aggr_first(x, index);
     drop_obj(index);
diff --git a/core/index.c b/core/index.c
index 55aa40b..45c4bdb 100644
--- a/core/index.c
+++ b/core/index.c
@@ -118,13 +118,21 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
         case -TYPE_C8:
             out[offset] = hash_index_u64((i64_t)obj->u8, out[offset]);
             break;
+        case -TYPE_I16:
+            out[offset] = hash_index_u64((i64_t)obj->i16, out[offset]);
+            break;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            out[offset] = hash_index_u64((i64_t)obj->i32, out[offset]);
+            break;
         case -TYPE_I64:
         case -TYPE_SYMBOL:
         case -TYPE_TIMESTAMP:
             out[offset] = hash_index_u64((i64_t)obj->i64, out[offset]);
             break;
         case -TYPE_F64:
-            out[offset] = hash_index_u64((i64_t)obj->f64, out[offset]);
+            out[offset] = hash_index_u64(hash_f64(obj->f64), out[offset]);
             break;
         case -TYPE_GUID:
             out[offset] = hash_index_u64(*(i64_t *)AS_GUID(obj), *((i64_t *)AS_GUID(obj) + 1));
@@ -140,6 +148,14 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 for (i = offset; i < len + offset; i++)
                     out[i] = hash_index_u64((i64_t)u8v[i], out[i]);
             break;
+        case TYPE_I16:
+            if (filter)
+                for (i = offset; i < len + offset; i++)
+                    out[i] = hash_index_u64((i64_t)AS_I16(obj)[filter[i]], out[i]);
+            else
+                for (i = offset; i < len + offset; i++)
+                    out[i] = hash_index_u64((i64_t)AS_I16(obj)[i], out[i]);
+            break;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -166,13 +182,12 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
             }
             break;
         case TYPE_F64:
-            u64v = (i64_t *)AS_F64(obj);
             if (filter)
                 for (i = offset; i < len + offset; i++)
-                    out[i] = hash_index_u64(u64v[filter[i]], out[i]);
+                    out[i] = hash_index_u64(hash_f64(AS_F64(obj)[filter[i]]), out[i]);
             else
                 for (i = offset; i < len + offset; i++)
-                    out[i] = hash_index_u64(u64v[i], out[i]);
+                    out[i] = hash_index_u64(hash_f64(AS_F64(obj)[i]), out[i]);
             break;
         case TYPE_GUID:
             g64v = AS_GUID(obj);
@@ -2260,6 +2275,22 @@ obj_p index_group(obj_p val, obj_p filter) {
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
             return index_group_i64(val, filter);
+        case TYPE_I16:
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            l = val->len;
+            v = I64(l);
+            if (val->type == TYPE_I16) {
+                for (i = 0; i < l; i++)
+                    AS_I64(v)[i] = i16_to_i64(AS_I16(val)[i]);
+            } else {
+                for (i = 0; i < l; i++)
+                    AS_I64(v)[i] = i32_to_i64(AS_I32(val)[i]);
+            }
+            bins = index_group_i64(v, filter);
+            drop_obj(v);
+            return bins;
         case TYPE_F64:
             return index_group_f64(val, filter);
         case TYPE_GUID:
@@ -2400,7 +2431,11 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     values = AS_LIST(obj);
     indices = is_null(filter) ? NULL : AS_I64(filter);
-    len = indices ? filter->len : values[0]->len;
+    len = indices ? (u64_t)filter->len : (u64_t)ops_count(values[0]);
+
+    // No rows: no range to hash into
+    if (len == 0)
+        return NULL_OBJ;
 
     // First, check if columns types are suitable for perfect hashing
     for (i = 0; i < l; i++) {
@@ -2433,9 +2468,11 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
-            case TYPE_ENUM:
                 scopes[i] = index_scope_i64(AS_I64(values[i]), indices, len);
                 break;
+            case TYPE_ENUM:
+                scopes[i] = index_scope_i64(AS_I64(ENUM_VAL(values[i])), indices, len);
+                break;
             default:
                 __builtin_unreachable();
         }
@@ -2445,7 +2482,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     // Use signed max to avoid overflow in scope.range (which is i64_t)
     for (i = 0, product = 1, scope = (index_scope_t){0, 0, 0}; i < l; i++) {
         // Check for overflow - product must stay within signed i64 range
-        if (product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
+        if (scopes[i].range == INF_I64 || product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
             heap_free(scopes);
             return NULL_OBJ;  // Overflow would occur
         }
@@ -2827,7 +2864,7 @@ obj_p index_group_list(obj_p obj, obj_p filter) {
 
     values = AS_LIST(obj);
     indices = is_null(filter) ? NULL : AS_I64(filter);
-    len = indices ? filter->len : values[0]->len;
+    len = indices ? filter->len : ops_count(values[0]);
 
     pool = pool_get();
     parts = pool_split_by(pool, len, 0);
diff --git a/core/ops.c b/core/ops.c
index a859406..3ee7acf 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -118,6 +118,8 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_C8, TYPE_C8):
             return AS_U8(a)[ai] == AS_U8(b)[bi];
+        case MTYPE2(TYPE_I16, TYPE_I16):
+            return AS_I16(a)[ai] == AS_I16(b)[bi];
         case MTYPE2(TYPE_I32, TYPE_I32):
         case MTYPE2(TYPE_DATE, TYPE_DATE):
         case MTYPE2(TYPE_TIME, TYPE_TIME):
@@ -127,9 +129,9 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_TIMESTAMP):
             return AS_I64(a)[ai] == AS_I64(b)[bi];
         case MTYPE2(TYPE_F64, -TYPE_F64):
-            return AS_F64(a)[ai] == b->f64;
+            return EQF64(AS_F64(a)[ai], b->f64);
         case MTYPE2(TYPE_F64, TYPE_F64):
-            return AS_F64(a)[ai] == AS_F64(b)[bi];
+            return EQF64(AS_F64(a)[ai], AS_F64(b)[bi]);
         case MTYPE2(TYPE_GUID, -TYPE_GUID):
             return memcmp(AS_GUID(a) + ai, AS_GUID(b), sizeof(guid_t)) == 0;
         case MTYPE2(TYPE_GUID, TYPE_GUID):
@@ -162,7 +164,13 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
             drop_obj(rv);
             return eq;
         default:
-            PANIC("type: %d", a->type);
+            // values of different types are different
+            lv = at_idx(a, ai);
+            rv = at_idx(b, bi);
+            eq = cmp_obj(lv, rv) == 0;
+            drop_obj(lv);
+            drop_obj(rv);
+            return eq;
     }
 }
 
-- 
2.43.0


From 544a4ed8699611c75b99d2f8c42a4f24949af3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 36/98] fix: membership between integer types of different
 widths, byte values over 127, guids and null floats

---
 core/index.c    | 178 +++++++++++-------------------------------------
 core/rayforce.c |  53 +++++++-------
 2 files changed, 69 insertions(+), 162 deletions(-)

diff --git a/core/index.c b/core/index.c
index 45c4bdb..6f95218 100644
--- a/core/index.c
+++ b/core/index.c
@@ -726,7 +726,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -746,7 +746,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i]];
 
     drop_obj(set);
 
@@ -759,7 +759,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -779,7 +779,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i]];
 
     drop_obj(set);
 
@@ -792,7 +792,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -812,7 +812,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i]];
 
     drop_obj(set);
 
@@ -825,7 +825,7 @@ obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -836,7 +836,7 @@ obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i]] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
@@ -965,7 +965,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -976,7 +976,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        val = y[i] - min;
+        s[(u8_t)y[i]] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
@@ -1100,70 +1100,25 @@ obj_p index_in_i32_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     return vec;
 }
 
-obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
-    i64_t i, range;
-    i64_t val, min, max;
-    obj_p vec, set;
-    i8_t *s, *r;
-
-    if (xl == 0)
-        return B8(0);
-
-    const index_scope_t scope_x = index_scope_i32(x, NULL, xl);
-    const index_scope_t scope_y = index_scope_i64(y, NULL, yl);
-
-    min = (scope_x.min > scope_y.min) ? scope_x.min : scope_y.min;
-    max = (scope_x.max < scope_y.max) ? scope_x.max : scope_y.max;
-
-    vec = B8(xl);
-    r = AS_B8(vec);
-
-    if (min > max) {
-        memset(r, 0, xl);
-        return vec;
-    }
-
-    range = max - min + 1;
-
-    if (range <= MAX_RANGE) {
-        set = B8(range);
-        s = AS_B8(set);
-        memset(s, 0, range);
-
-        for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                s[val] = B8_TRUE;
-        }
-
-        for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                r[i] = s[val];
-            else
-                r[i] = B8_FALSE;
-        }
-
-        drop_obj(set);
-
-        return vec;
-    }
+// 32-bit integers as 64-bit ones, nulls stay nulls
+static obj_p index_widen_i32(i32_t x[], i64_t len) {
+    i64_t i;
+    obj_p res = I64(len);
 
-    // otherwise, use a hash table
-    set = ht_oa_create(xl, -1);
+    for (i = 0; i < len; i++)
+        AS_I64(res)[i] = i32_to_i64(x[i]);
 
-    for (i = 0; i < yl; i++)
-        if (y[i] == NULL_I64)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)NULL_I32)] = (i64_t)NULL_I32;
-        else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+    return res;
+}
 
-    for (i = 0; i < xl; i++)
-        r[i] = ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
+obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
+    obj_p wide, res;
 
-    drop_obj(set);
+    wide = index_widen_i32(x, xl);
+    res = index_in_i64_i64(AS_I64(wide), xl, y, yl);
+    drop_obj(wide);
 
-    return vec;
+    return res;
 }
 
 obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
@@ -1173,7 +1128,7 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     b8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -1184,7 +1139,7 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i]] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
@@ -1242,71 +1197,13 @@ obj_p index_in_i64_i16(i64_t x[], i64_t xl, i16_t y[], i64_t yl) {
 }
 
 obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
-    i64_t i, range;
-    i64_t val, min, max;
-    obj_p vec, set;
-    i8_t *s, *r;
-
-    if (xl == 0)
-        return B8(0);
+    obj_p wide, res;
 
-    const index_scope_t scope_x = index_scope_i64(x, NULL, xl);
-    const index_scope_t scope_y = index_scope_i32(y, NULL, yl);
+    wide = index_widen_i32(y, yl);
+    res = index_in_i64_i64(x, xl, AS_I64(wide), yl);
+    drop_obj(wide);
 
-    min = (scope_x.min > scope_y.min) ? scope_x.min : scope_y.min;
-    max = (scope_x.max < scope_y.max) ? scope_x.max : scope_y.max;
-
-    vec = B8(xl);
-    r = AS_B8(vec);
-
-    if (min > max) {
-        memset(r, 0, xl);
-        return vec;
-    }
-
-    range = max - min + 1;
-
-    if (range <= MAX_RANGE) {
-        set = B8(range);
-        s = AS_B8(set);
-        memset(s, 0, range);
-
-        for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                s[val] = B8_TRUE;
-        }
-
-        for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                r[i] = s[val];
-            else
-                r[i] = B8_FALSE;
-        }
-
-        drop_obj(set);
-
-        return vec;
-    }
-
-    // otherwise, use a hash table
-    set = ht_oa_create(xl, -1);
-
-    for (i = 0; i < yl; i++)
-        AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)y[i])] = (i64_t)y[i];
-
-    for (i = 0; i < xl; i++)
-        if (x[i] == NULL_I64)
-            r[i] = ht_oa_tab_get(set, (i64_t)NULL_I32) != NULL_I64;
-        else if (x[i] > (i64_t)NULL_I32 && x[i] <= (i64_t)INF_I32)
-            r[i] = ht_oa_tab_get(set, x[i]) != NULL_I64;
-        else
-            r[i] = B8_FALSE;
-
-    drop_obj(set);
-
-    return vec;
+    return res;
 }
 
 obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
@@ -1367,8 +1264,10 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     for (i = 0; i < yl; i++)
         if (y[i] == NULL_I64)
             nl = B8_TRUE;
-        else
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+        else {
+            val = ht_oa_tab_next(&set, y[i]);
+            AS_I64(AS_LIST(set)[0])[val] = y[i];
+        }
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
@@ -1381,14 +1280,15 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     return vec;
 }
 
-obj_p index_in_guid_guid(guid_t x[], i64_t xl, guid_t y[], i64_t yl) {
+// tells which of y are in x
+static obj_p index_guid_members(guid_t x[], i64_t xl, guid_t y[], i64_t yl) {
     i64_t i, *hashes;
     obj_p ht, hs, res;
     i64_t idx;
     __index_find_ctx_t ctx;
 
     // calc hashes
-    hs = I64(xl);
+    hs = I64(MAXI64(xl, yl));
     ht = ht_oa_create(xl, -1);
 
     hashes = (i64_t *)AS_I64(hs);
@@ -1420,6 +1320,8 @@ obj_p index_in_guid_guid(guid_t x[], i64_t xl, guid_t y[], i64_t yl) {
     return res;
 }
 
+obj_p index_in_guid_guid(guid_t x[], i64_t xl, guid_t y[], i64_t yl) { return index_guid_members(y, yl, x, xl); }
+
 obj_p index_find_i8(i8_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i64_t i, range;
     i64_t min, val, *d, *r;
diff --git a/core/rayforce.c b/core/rayforce.c
index bb3248d..75bcefe 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1654,9 +1654,21 @@ i64_t find_sym(obj_p obj, lit_p str) {
     return find_raw(obj, &n);
 }
 
+// i-th integer of a buffer of the given atom type, widened; nulls stay nulls
+static i64_t int_value(i8_t type, raw_p buf, i64_t i) {
+    switch (type) {
+        case -TYPE_U8:
+            return ((u8_t*)buf)[i];
+        case -TYPE_I16:
+            return i16_to_i64(((i16_t*)buf)[i]);
+        case -TYPE_I32:
+            return i32_to_i64(((i32_t*)buf)[i]);
+        default:
+            return ((i64_t*)buf)[i];
+    }
+}
+
 i64_t find_obj_idx(obj_p obj, obj_p val) {
-    i16_t vi16;
-    i32_t vi32;
     i64_t vi64;
     i64_t i;
     obj_p eq;
@@ -1668,34 +1680,27 @@ i64_t find_obj_idx(obj_p obj, obj_p val) {
             return find_raw(obj, &val->u8);
         case MTYPE2(TYPE_I16, -TYPE_I16):
             return find_raw(obj, &val->i16);
-        case MTYPE2(TYPE_I16, -TYPE_I32):
-            vi32 = val->i32;
-            vi16 = (i16_t)vi32;
-            return find_raw(obj, &vi16);
-        case MTYPE2(TYPE_I16, -TYPE_I64):
-            vi64 = val->i64;
-            vi16 = (i16_t)vi64;
-            return find_raw(obj, &vi16);
-        case MTYPE2(TYPE_I32, -TYPE_I16):
-            vi16 = val->i16;
-            vi32 = (i32_t)vi16;
-            return find_raw(obj, &vi32);
         case MTYPE2(TYPE_I32, -TYPE_I32):
         case MTYPE2(TYPE_DATE, -TYPE_DATE):
         case MTYPE2(TYPE_TIME, -TYPE_TIME):
             return find_raw(obj, &val->i32);
+        case MTYPE2(TYPE_U8, -TYPE_I16):
+        case MTYPE2(TYPE_U8, -TYPE_I32):
+        case MTYPE2(TYPE_U8, -TYPE_I64):
+        case MTYPE2(TYPE_I16, -TYPE_U8):
+        case MTYPE2(TYPE_I16, -TYPE_I32):
+        case MTYPE2(TYPE_I16, -TYPE_I64):
+        case MTYPE2(TYPE_I32, -TYPE_U8):
+        case MTYPE2(TYPE_I32, -TYPE_I16):
         case MTYPE2(TYPE_I32, -TYPE_I64):
-            vi64 = val->i64;
-            vi32 = (i32_t)vi64;
-            return find_raw(obj, &vi32);
+        case MTYPE2(TYPE_I64, -TYPE_U8):
         case MTYPE2(TYPE_I64, -TYPE_I16):
-            vi16 = val->i16;
-            vi64 = (i64_t)vi16;
-            return find_raw(obj, &vi64);
         case MTYPE2(TYPE_I64, -TYPE_I32):
-            vi32 = val->i32;
-            vi64 = (i64_t)vi32;
-            return find_raw(obj, &vi64);
+            vi64 = int_value(val->type, &val->u8, 0);
+            for (i = 0; i < obj->len; i++)
+                if (int_value(-obj->type, AS_U8(obj), i) == vi64)
+                    return i;
+            return NULL_I64;
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_TIMESTAMP):
@@ -2324,7 +2329,7 @@ i64_t find_raw(obj_p obj, raw_p val) {
             return NULL_I64;
         case TYPE_F64:
             for (i = 0; i < l; i++)
-                if (AS_F64(obj)[i] == *(f64_t*)val)
+                if (EQF64(AS_F64(obj)[i], *(f64_t*)val))
                     return i;
             return NULL_I64;
         case TYPE_GUID:
-- 
2.43.0


From 1b82894af3c385a1e17f1f23fe4c7f145c3d2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 37/98] fix: find of floats and of different enumerations;
 within of one value is a boolean

---
 core/items.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/core/items.c b/core/items.c
index 9b5ea64..bdec8de 100644
--- a/core/items.c
+++ b/core/items.c
@@ -299,7 +299,20 @@ obj_p ray_at(obj_p x, obj_p y) {
     }
 }
 
+// floats as integers that are equal if and only if the floats are
+static obj_p f64_bits(obj_p x) {
+    i64_t i, l = x->len;
+    obj_p res = I64(l);
+
+    for (i = 0; i < l; i++)
+        AS_I64(res)[i] = (i64_t)hash_f64(AS_F64(x)[i]);
+
+    return res;
+}
+
 obj_p ray_find(obj_p x, obj_p y) {
+    obj_p a, b, res;
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_B8):
         case MTYPE2(TYPE_I64, -TYPE_I64):
@@ -322,9 +335,20 @@ obj_p ray_find(obj_p x, obj_p y) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_TIMESTAMP):
             return index_find_i64(AS_I64(x), x->len, AS_I64(y), y->len);
         case MTYPE2(TYPE_ENUM, TYPE_ENUM):
-            return index_find_i64(AS_I64(ENUM_VAL(x)), x->len, AS_I64(ENUM_VAL(y)), y->len);
+            // indices of different enumerations are not comparable
+            a = ray_value(x);
+            b = ray_value(y);
+            res = ray_find(a, b);
+            drop_obj(a);
+            drop_obj(b);
+            return res;
         case MTYPE2(TYPE_F64, TYPE_F64):
-            return index_find_i64((i64_t *)AS_F64(x), x->len, (i64_t *)AS_F64(y), y->len);
+            a = f64_bits(x);
+            b = f64_bits(y);
+            res = index_find_i64(AS_I64(a), a->len, AS_I64(b), b->len);
+            drop_obj(a);
+            drop_obj(b);
+            return res;
         case MTYPE2(TYPE_GUID, TYPE_GUID):
             return index_find_guid(AS_GUID(x), x->len, AS_GUID(y), y->len);
         case MTYPE2(TYPE_LIST, TYPE_LIST):
@@ -869,7 +893,7 @@ obj_p ray_within(obj_p x, obj_p y) {
                 min = AS_I64(y)[0];
                 max = AS_I64(y)[1];
 
-                return B8(x->i64 >= min && x->i64 <= max);
+                return b8(x->i64 >= min && x->i64 <= max);
 
             case MTYPE2(TYPE_I64, TYPE_I64):
                 l = x->len;
-- 
2.43.0


From 530455a1756d1d700b786564f4a0b53646fdb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 38/98] fix: remove, diverse, unify and joins do not free or
 change their caller's value

---
 core/compose.c | 27 ++++++++++++++++++++-------
 core/join.c    |  4 ++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index a70cf09..a1d09b7 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -839,17 +839,30 @@ obj_p ray_concat(obj_p x, obj_p y) {
 }
 
 obj_p ray_remove(obj_p x, obj_p y) {
-    obj_p r;
+    obj_p r, res;
+    i64_t i;
+
     switch (y->type) {
         case -TYPE_I32:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i32);
+            i = y->i32;
+            break;
         case -TYPE_I64:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i64);
+            i = y->i64;
+            break;
         default:
             return err_type(-TYPE_I64, y->type, 0, 0);
     }
+
+    // x belongs to the caller, even when it is the only reference
+    r = copy_obj(x);
+    if (IS_ERR(r))
+        return r;
+
+    res = remove_idx(&r, i);
+    if (IS_ERR(res))
+        drop_obj(r);
+
+    return res;
 }
 
 obj_p ray_distinct(obj_p x) {
@@ -1101,14 +1114,14 @@ obj_p ray_group(obj_p x) {
 obj_p ray_diverse(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return diverse_obj(&res);
 }
 
 obj_p ray_unify(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return unify_list(&res);
 }
 
diff --git a/core/join.c b/core/join.c
index 81ed2e2..366cb95 100644
--- a/core/join.c
+++ b/core/join.c
@@ -331,7 +331,7 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
@@ -401,7 +401,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
-- 
2.43.0


From b4c716291db06c2c8eeecad71bdb0855b74bd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 39/98] fix: alter and modify do not free or change their
 caller's value

---
 core/update.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/update.c b/core/update.c
index 4faccdd..78dde22 100644
--- a/core/update.c
+++ b/core/update.c
@@ -324,7 +324,10 @@ obj_p ray_alter(obj_p *x, i64_t n) {
             return err_value(0);
         obj = cow_obj(*cur);
     } else {
-        obj = cow_obj(x[0]);
+        // the argument belongs to the caller, even when it is the only reference
+        obj = copy_obj(x[0]);
+        if (IS_ERR(obj))
+            return obj;
     }
 
     res = obj;
@@ -373,7 +376,10 @@ obj_p ray_modify(obj_p *x, i64_t n) {
             return err_value(0);
         obj = cow_obj(*cur);
     } else {
-        obj = cow_obj(x[0]);
+        // the argument belongs to the caller, even when it is the only reference
+        obj = copy_obj(x[0]);
+        if (IS_ERR(obj))
+            return obj;
     }
 
     res = dot_obj(obj, x[2]);
-- 
2.43.0


From 9a4a540fbe3556181b55edf333d5f7d289fbeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 40/98] fix: rows and columns filled in with nulls get nulls of
 every column type

---
 core/rayforce.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 75bcefe..03dff26 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -86,6 +86,16 @@ obj_p null(i8_t type) {
     switch (type) {
         case TYPE_B8:
             return b8(B8_FALSE);
+        case TYPE_U8:
+            return u8(0);
+        case TYPE_I16:
+            return i16(NULL_I16);
+        case TYPE_I32:
+            return i32(NULL_I32);
+        case TYPE_DATE:
+            return adate(NULL_I32);
+        case TYPE_TIME:
+            return atime(NULL_I32);
         case TYPE_I64:
             return i64(NULL_I64);
         case TYPE_F64:
@@ -96,6 +106,8 @@ obj_p null(i8_t type) {
             return symboli64(NULL_I64);
         case TYPE_TIMESTAMP:
             return timestamp(NULL_I64);
+        case TYPE_GUID:
+            return guid(NULL);
         default:
             return NULL_OBJ;
     }
@@ -121,6 +133,16 @@ obj_p nullv(i8_t type, i64_t len) {
         case TYPE_C8:
             memset(vec->raw, 0, len);
             break;
+        case TYPE_I16:
+            for (i = 0; i < len; i++)
+                AS_I16(vec)[i] = NULL_I16;
+            break;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            for (i = 0; i < len; i++)
+                AS_I32(vec)[i] = NULL_I32;
+            break;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From 00b66b63efee86142bd5d51f442d2476911a0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 41/98] fix: setting elements keeps the element type, does not
 touch shared values and survives bad indices and keys

---
 core/rayforce.c | 132 +++++++++++++++++++++++++++++++++++++++++-------
 core/rayforce.h |   1 +
 2 files changed, 115 insertions(+), 18 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 03dff26..f48353e 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1446,6 +1446,22 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
     (*obj)->attrs = 0;
 
     switch (MTYPE2((*obj)->type, val->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_B8):
+        case MTYPE2(TYPE_U8, -TYPE_U8):
+        case MTYPE2(TYPE_C8, -TYPE_C8):
+            AS_U8(*obj)[idx] = val->u8;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I16, -TYPE_I16):
+            AS_I16(*obj)[idx] = val->i16;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I32, -TYPE_I32):
+        case MTYPE2(TYPE_DATE, -TYPE_DATE):
+        case MTYPE2(TYPE_TIME, -TYPE_TIME):
+            AS_I32(*obj)[idx] = val->i32;
+            drop_obj(val);
+            return *obj;
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_TIMESTAMP):
@@ -1456,10 +1472,6 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
             AS_F64(*obj)[idx] = val->f64;
             drop_obj(val);
             return *obj;
-        case MTYPE2(TYPE_C8, -TYPE_C8):
-            AS_C8(*obj)[idx] = val->c8;
-            drop_obj(val);
-            return *obj;
         case MTYPE2(TYPE_GUID, -TYPE_GUID):
             memcpy(AS_GUID(*obj)[idx], AS_GUID(val), sizeof(guid_t));
             drop_obj(val);
@@ -1596,7 +1608,8 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
             return *obj;
         default:
             if ((*obj)->type == TYPE_LIST) {
-                if (IS_VECTOR(vals) && len != (*obj)->len) {
+                // one value per id, or the same value for all of them
+                if (!IS_VECTOR(vals) || vals->len != len) {
                     for (i = 0; i < len; i++) {
                         drop_obj(AS_LIST(*obj)[ids[i]]);
                         AS_LIST(*obj)[ids[i]] = clone_obj(vals);
@@ -1613,7 +1626,11 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 return *obj;
             }
 
-            return err_type((*obj)->type, vals->type, 0, 0);
+            {
+                i8_t got = vals->type;
+                drop_obj(vals);
+                return err_type((*obj)->type, got, 0, 0);
+            }
     }
 }
 
@@ -1631,6 +1648,24 @@ obj_p __expand(obj_p obj, i64_t len) {
 
             drop_obj(obj);
 
+            return res;
+        case -TYPE_I16:
+            res = I16(len);
+            for (i = 0; i < len; i++)
+                AS_I16(res)[i] = obj->i16;
+
+            drop_obj(obj);
+
+            return res;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            res = vector(obj->type, len);
+            for (i = 0; i < len; i++)
+                AS_I32(res)[i] = obj->i32;
+
+            drop_obj(obj);
+
             return res;
         case -TYPE_I64:
         case -TYPE_SYMBOL:
@@ -1777,10 +1812,20 @@ obj_p find_obj_ids(obj_p obj, obj_p val) {
     }
 }
 
+// takes ownership of val
 obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
     i64_t i;
     obj_p ids, res;
 
+    // keys and values may be shared with other objects
+    res = cow_ref(&AS_LIST(*obj)[0]);
+    if (!IS_ERR(res))
+        res = cow_ref(&AS_LIST(*obj)[1]);
+    if (IS_ERR(res)) {
+        drop_obj(val);
+        return res;
+    }
+
     switch (idx->type) {
         case -TYPE_I64:
         case -TYPE_SYMBOL:
@@ -1789,8 +1834,10 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
             // Key not found, add it
             if (i == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
-                if (IS_ERR(res))
+                if (IS_ERR(res)) {
+                    drop_obj(val);
                     return res;
+                }
 
                 res = push_obj(&AS_LIST(*obj)[1], val);
                 if (IS_ERR(res))
@@ -1807,19 +1854,32 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
+            if (IS_VECTOR(val) && ops_count(val) != idx->len) {
+                i64_t have = ops_count(val);
+                drop_obj(val);
+                return err_length(idx->len, have, 0, 0, 0, 0);
+            }
+
             ids = find_obj_ids(AS_LIST(*obj)[0], idx);
-            if (IS_ERR(ids))
+            if (IS_ERR(ids)) {
+                drop_obj(val);
                 return ids;
+            }
+
+            // Some of the keys are not found
+            if (ids == NULL_OBJ) {
+                drop_obj(val);
+                return err_value(0);
+            }
 
             res = set_ids(&AS_LIST(*obj)[1], AS_I64(ids), ids->len, val);
             drop_obj(ids);
 
-            return res;
+            return IS_ERR(res) ? res : *obj;
         default:
+            drop_obj(val);
             return err_type(TYPE_SYMBOL, idx->type, 0, 0);
     }
-
-    return *obj;
 }
 
 obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
@@ -1829,6 +1889,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
     // dispatch:
     switch (MTYPE2((*obj)->type, idx->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_I64):
+        case MTYPE2(TYPE_U8, -TYPE_I64):
+        case MTYPE2(TYPE_I16, -TYPE_I64):
+        case MTYPE2(TYPE_I32, -TYPE_I64):
+        case MTYPE2(TYPE_DATE, -TYPE_I64):
+        case MTYPE2(TYPE_TIME, -TYPE_I64):
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_I64):
@@ -1841,6 +1907,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
                 return err_index(idx->i64, (*obj)->len, 0, 0);
             }
             return set_idx(obj, idx->i64, val);
+        case MTYPE2(TYPE_B8, TYPE_I64):
+        case MTYPE2(TYPE_U8, TYPE_I64):
+        case MTYPE2(TYPE_I16, TYPE_I64):
+        case MTYPE2(TYPE_I32, TYPE_I64):
+        case MTYPE2(TYPE_DATE, TYPE_I64):
+        case MTYPE2(TYPE_TIME, TYPE_I64):
         case MTYPE2(TYPE_I64, TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -1867,6 +1939,11 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             val = __expand(val, ops_count(*obj));
             if (IS_ERR(val))
                 return val;
+
+            // names and columns may be shared with other objects
+            cow_ref(&AS_LIST(*obj)[0]);
+            cow_ref(&AS_LIST(*obj)[1]);
+
             j = find_obj_idx(AS_LIST(*obj)[0], idx);
             if (j == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
@@ -1915,6 +1992,10 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             drop_obj(val);
             val = v;
 
+            // names and columns may be shared with other objects
+            cow_ref(&AS_LIST(*obj)[0]);
+            cow_ref(&AS_LIST(*obj)[1]);
+
             for (i = 0; i < l; i++) {
                 id = find_raw(AS_LIST(*obj)[0], &AS_SYMBOL(idx)[i]);
                 if (id == NULL_I64) {
@@ -1929,14 +2010,14 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
             return *obj;
         default:
-            if ((*obj)->type == TYPE_DICT) {
-                res = set_dict_obj(obj, idx, val);
-                if (IS_ERR(res)) {
-                    drop_obj(val);
-                    return res;
-                }
+            if ((*obj)->type == TYPE_DICT)
+                return set_dict_obj(obj, idx, val);
 
-                return res;
+            // Nothing but integers can index a list
+            if ((idx->type != -TYPE_I64 && idx->type != TYPE_I64) || (*obj)->type == TYPE_LIST ||
+                (*obj)->type == TYPE_TABLE) {
+                drop_obj(val);
+                return err_type((*obj)->type, idx->type, 0, 0);
             }
 
             // Diverse to a list then
@@ -3090,6 +3171,21 @@ obj_p cow_obj(obj_p obj) {
     return copy_obj(obj);
 }
 
+obj_p cow_ref(obj_p* obj) {
+    obj_p res;
+
+    res = cow_obj(*obj);
+    if (IS_ERR(res))
+        return res;
+
+    if (res != *obj) {
+        drop_obj(*obj);
+        *obj = res;
+    }
+
+    return res;
+}
+
 u32_t rc_obj(obj_p obj) {
     if (LIKELY(!VM->rc_sync))
         return obj->rc;
diff --git a/core/rayforce.h b/core/rayforce.h
index c1c4e1c..448cf5b 100644
--- a/core/rayforce.h
+++ b/core/rayforce.h
@@ -182,6 +182,7 @@ extern obj_p dict(obj_p keys, obj_p vals);   // dict
 extern obj_p clone_obj(obj_p obj);  // clone_obj
 extern obj_p copy_obj(obj_p obj);   // copy
 extern obj_p cow_obj(obj_p obj);    // copy-on-write
+extern obj_p cow_ref(obj_p *obj);   // copy-on-write of a slot: make it hold an object nobody else refers to
 extern u32_t rc_obj(obj_p obj);     // get refcount
 
 // Destructors
-- 
2.43.0


From ed78d7131f17d435f2651e4e1e2902ec20efdc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 42/98] fix: removing by several indices works in any order;
 removing from a dictionary does not touch shared values

---
 core/rayforce.c | 118 +++++++++++++++++-------------------------------
 1 file changed, 42 insertions(+), 76 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index f48353e..8abbb53 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2085,79 +2085,47 @@ obj_p remove_idx(obj_p* obj, i64_t idx) {
 }
 
 obj_p remove_ids(obj_p* obj, i64_t ids[], i64_t len) {
-    i64_t i, j;
+    i64_t i, j, l, size;
+    obj_p mask;
+    u8_t* raw;
 
-    if (len == 0 || (*obj)->len == 0 || len > (*obj)->len)
+    l = (*obj)->len;
+
+    if (len == 0 || l == 0)
         return *obj;
 
     // Check ids are in range
     for (i = 0; i < len; i++)
-        if (ids[i] < 0 || ids[i] >= (i64_t)(*obj)->len)
+        if (ids[i] < 0 || ids[i] >= l)
             return *obj;
 
-    switch ((*obj)->type) {
-        case TYPE_U8:
-        case TYPE_B8:
-        case TYPE_C8:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_U8(*obj) + j, AS_U8(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(u8_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-        case TYPE_I16:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I16(*obj) + j, AS_I16(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i16_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_I32:
-        case TYPE_DATE:
-        case TYPE_TIME:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I32(*obj) + j, AS_I32(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i32_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_I64:
-        case TYPE_SYMBOL:
-        case TYPE_TIMESTAMP:
-        case TYPE_F64:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_I64(*obj) + j, AS_I64(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i64_t));
-            }
-
-            return resize_obj(obj, (*obj)->len - len);
-
-        case TYPE_GUID:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                memmove(AS_GUID(*obj) + j, AS_GUID(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(guid_t));
-            }
+    size = size_of_type((*obj)->type);
+    raw = AS_U8(*obj);
 
-            return resize_obj(obj, (*obj)->len - len);
+    // ids may come in any order, more than once
+    mask = B8(l);
+    memset(AS_B8(mask), 0, l);
+    for (i = 0; i < len; i++)
+        AS_B8(mask)[ids[i]] = B8_TRUE;
 
-        case TYPE_LIST:
-            for (i = 0; i < len; i++) {
-                j = ids[i] - i;
-                drop_obj(AS_LIST(*obj)[j]);
-                memmove(AS_I64(*obj) + j, AS_I64(*obj) + j + 1, ((*obj)->len - j - 1) * sizeof(i64_t));
-            }
+    for (i = 0, j = 0; i < l; i++) {
+        if (AS_B8(mask)[i]) {
+            if ((*obj)->type == TYPE_LIST)
+                drop_obj(AS_LIST(*obj)[i]);
+        } else {
+            if (i != j)
+                memcpy(raw + j * size, raw + i * size, size);
+            j++;
+        }
+    }
 
-            return resize_obj(obj, (*obj)->len - len);
+    drop_obj(mask);
 
-        default:
-            PANIC("type: %d", (*obj)->type);
-    }
+    return resize_obj(obj, j);
 }
 
 obj_p remove_obj(obj_p* obj, obj_p idx) {
-    i64_t i, j;
+    i64_t j;
     obj_p v;
 
     switch (MTYPE2((*obj)->type, idx->type)) {
@@ -2172,6 +2140,7 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
         case MTYPE2(TYPE_SYMBOL, -TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_I64):
         case MTYPE2(TYPE_F64, -TYPE_I64):
+        case MTYPE2(TYPE_GUID, -TYPE_I64):
         case MTYPE2(TYPE_LIST, -TYPE_I64):
             return remove_idx(obj, idx->i64);
         case MTYPE2(TYPE_U8, TYPE_I64):
@@ -2185,32 +2154,29 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
         case MTYPE2(TYPE_SYMBOL, TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_I64):
+        case MTYPE2(TYPE_GUID, TYPE_I64):
         case MTYPE2(TYPE_LIST, TYPE_I64):
             return remove_ids(obj, AS_I64(idx), idx->len);
-        case MTYPE2(TYPE_DICT, -TYPE_I64):
-            i = find_obj_idx(AS_LIST(*obj)[0], idx);
-
-            // not found ?
-            if (i == NULL_I64)
-                return *obj;
-
-            v = remove_idx(&AS_LIST(*obj)[0], i);
-
-            if (IS_ERR(v))
-                return v;
-
-            v = remove_idx(&AS_LIST(*obj)[1], i);
-            if (IS_ERR(v))
-                return v;
-
-            return *obj;
         default:
             if ((*obj)->type == TYPE_DICT) {
                 j = find_obj_idx(AS_LIST(*obj)[0], idx);
+
+                // not found ?
                 if (j == NULL_I64)
                     return *obj;
 
+                // keys and values may be shared with other objects
+                v = cow_ref(&AS_LIST(*obj)[0]);
+                if (!IS_ERR(v))
+                    v = cow_ref(&AS_LIST(*obj)[1]);
+                if (IS_ERR(v))
+                    return v;
+
+                if (!IS_VECTOR(AS_LIST(*obj)[0]) || !IS_VECTOR(AS_LIST(*obj)[1]))
+                    return err_type(TYPE_LIST, AS_LIST(*obj)[1]->type, 0, 0);
+
                 v = remove_idx(&AS_LIST(*obj)[0], j);
+
                 if (IS_ERR(v))
                     return v;
 
-- 
2.43.0


From a2cb71ac511380025296eae688d8e1de3e79afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 43/98] fix: alter and modify leave the bound value valid on
 errors and change the element the index leads to

---
 core/update.c | 295 ++++++++++++++++++++++++++------------------------
 1 file changed, 155 insertions(+), 140 deletions(-)

diff --git a/core/update.c b/core/update.c
index 78dde22..5899bed 100644
--- a/core/update.c
+++ b/core/update.c
@@ -203,95 +203,85 @@ obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, ob
     return reordered;
 }
 
+// A reference to an element of obj (which must not be shared), made safe to change in place.
+// Returns NULL when there is no such element.
 obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     i64_t j;
-    obj_p v, *p;
+    obj_p *lst;
 
-    switch (MTYPE2(obj->type, idx->type)) {
-        case MTYPE2(TYPE_LIST, -TYPE_I64):
-            return &AS_LIST(obj)[idx->i64];
-        default:
-            if (obj->type == TYPE_DICT) {
-                j = find_obj_idx(AS_LIST(obj)[0], idx);
-                if (j == NULL_I64)
-                    return NULL;
-                else {
-                    if (AS_LIST(obj)[1]->type != TYPE_LIST)
-                        diverse_obj(AS_LIST(obj) + 1);
-
-                    p = AS_LIST(AS_LIST(obj)[1]) + j;
-                    v = cow_obj(*p);
-                    if (v != *p) {
-                        drop_obj(*p);
-                        *p = v;
-                    }
-
-                    return p;
-                }
-            }
-
-            return NULL;
-    }
-}
-
-obj_p dot_obj(obj_p obj, obj_p idx) {
-    i64_t i, l;
-    obj_p *ref;
-
-    switch (idx->type) {
-        case TYPE_NULL:
-            return obj;
+    switch (obj->type) {
         case TYPE_LIST:
-            l = idx->len;
-            if (l < 2)
-                return err_value(0);
+            if (idx->type != -TYPE_I64 || idx->i64 < 0 || idx->i64 >= obj->len)
+                return NULL;
 
-            l--;  // skip last element
+            j = idx->i64;
+            lst = AS_LIST(obj);
+            break;
+        case TYPE_DICT:
+            j = find_obj_idx(AS_LIST(obj)[0], idx);
+            if (j == NULL_I64)
+                return NULL;
 
-            for (i = 0; i < l; i++) {
-                obj = cow_obj(obj);
-                obj = dot_obj(obj, AS_LIST(idx)[i]);
-                if (obj == NULL)
-                    return err_value(0);
-            }
+            if (IS_ERR(cow_ref(AS_LIST(obj) + 1)))
+                return NULL;
 
-            return obj;
+            if (AS_LIST(obj)[1]->type != TYPE_LIST)
+                diverse_obj(AS_LIST(obj) + 1);
+
+            if (AS_LIST(obj)[1]->type != TYPE_LIST)
+                return NULL;
 
+            lst = AS_LIST(AS_LIST(obj)[1]);
+            break;
         default:
-            ref = at_obj_ref(cow_obj(obj), idx);
-            if (ref == NULL)
-                return err_value(0);
-            return *ref;
+            return NULL;
     }
-}
 
-obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
-    obj_p v, *p, args[3], res;
+    return IS_ERR(cow_ref(lst + j)) ? NULL : lst + j;
+}
 
-    // special case for set/let
-    if (func->type == TYPE_BINARY && (func->i64 == (i64_t)ray_set || func->i64 == (i64_t)ray_let))
-        return set_obj(obj, idx, clone_obj(val));
+// Functions that are performed on the object itself, the others are applied to the value at the index
+static b8_t __alter_inplace(obj_p func) {
+    return func->type == TYPE_BINARY && (func->i64 == (i64_t)ray_set || func->i64 == (i64_t)ray_let ||
+                                         func->i64 == (i64_t)ray_concat || func->i64 == (i64_t)ray_remove);
+}
 
-    // special case for concat
-    if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_concat) {
-        if (idx->type == TYPE_NULL)
-            return push_obj(obj, clone_obj(val));
+// Changes an object that must not be shared, takes ownership of val.
+// The reference stays valid whether or not there is an error.
+obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
+    obj_p *p, res;
 
-        p = at_obj_ref(*obj, idx);
-        if (p == NULL)
+    // special cases for concat and remove: applied to the element, if there is an index
+    if (__alter_inplace(func) && (func->i64 == (i64_t)ray_concat || func->i64 == (i64_t)ray_remove)) {
+        p = (idx->type == TYPE_NULL) ? obj : at_obj_ref(*obj, idx);
+        if (p == NULL) {
+            drop_obj(val);
             return err_value(0);
-        if (IS_ERR(*p))
-            return *p;
+        }
 
-        return push_obj(p, clone_obj(val));
+        if (func->i64 == (i64_t)ray_concat)
+            return push_obj(p, val);
+
+        res = remove_obj(p, val);
+        drop_obj(val);
+        return res;
     }
 
-    // special case for remove
-    if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_remove)
-        return remove_obj(obj, val);
+    return set_obj(obj, idx, val);
+}
+
+// The value alter and modify put at an index of an object: takes ownership of obj
+static obj_p __alter_value(obj_p obj, obj_p func, obj_p idx, obj_p val) {
+    obj_p v, args[3], res;
+
+    if (__alter_inplace(func)) {
+        drop_obj(obj);
+        return clone_obj(val);
+    }
 
     // retrieve the object via indices
-    v = at_obj(*obj, idx);
+    v = (idx->type == TYPE_NULL) ? clone_obj(obj) : at_obj(obj, idx);
+    drop_obj(obj);
 
     if (IS_ERR(v))
         return v;
@@ -303,108 +293,133 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
     res = ray_apply(args, 3);
     drop_obj(v);
 
-    if (IS_ERR(res))
-        return res;
-
-    return set_obj(obj, idx, res);
+    return res;
 }
 
-obj_p ray_alter(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur = NULL;
+// Changes the object x (or the one bound to the symbol x): path[0..len-2] leads to the element to be altered at
+// path[len-1]
+static obj_p __alter_path(obj_p x, obj_p func, obj_p *path, i64_t len, obj_p val) {
+    i64_t i;
+    obj_p obj, v, res, *p, *cur = NULL;
+    b8_t copied;
 
-    if (n < 3)
-        return err_arity(3, n, 0);
+    // Evaluate the value first: the function may do anything, even bind the symbol to something else
+    if (x->type == -TYPE_SYMBOL) {
+        cur = resolve(x->i64);
+        if (cur == NULL)
+            return err_value(0);
+        obj = clone_obj(*cur);
+    } else
+        obj = clone_obj(x);
 
-    if (x[1]->type < TYPE_LAMBDA || x[1]->type > TYPE_VARY)
-        return err_type(0, 0, 0, 0);
+    for (i = 0; i < len - 1; i++) {
+        v = at_obj(obj, path[i]);
+        drop_obj(obj);
+        if (IS_ERR(v))
+            return v;
+        obj = v;
+    }
 
-    if (x[0]->type == -TYPE_SYMBOL) {
-        cur = resolve(x[0]->i64);
-        if (cur == NULL)
+    val = __alter_value(obj, func, path[len - 1], val);
+    if (IS_ERR(val))
+        return val;
+
+    if (x->type == -TYPE_SYMBOL) {
+        cur = resolve(x->i64);
+        if (cur == NULL) {
+            drop_obj(val);
             return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        // the argument belongs to the caller, even when it is the only reference
-        obj = copy_obj(x[0]);
-        if (IS_ERR(obj))
-            return obj;
+        }
     }
 
-    res = obj;
-    res = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
+    // No index: the value replaces the object
+    if (len == 1 && path[0]->type == TYPE_NULL && !__alter_inplace(func)) {
+        if (cur == NULL)
+            return val;
+
+        drop_obj(*cur);
+        *cur = val;
 
-    if (IS_ERR(res)) {
-        if (x[0]->type != -TYPE_SYMBOL)
-            drop_obj(obj);
+        return clone_obj(x);
+    }
+
+    // the argument belongs to the caller, even when it is the only reference
+    obj = (cur != NULL) ? cow_obj(*cur) : copy_obj(x);
+    if (IS_ERR(obj)) {
+        drop_obj(val);
+        return obj;
+    }
+
+    copied = (cur == NULL || obj != *cur);
+
+    for (i = 0, p = &obj; i < len - 1 && p != NULL; i++)
+        p = at_obj_ref(*p, path[i]);
+
+    if (p == NULL) {
+        drop_obj(val);
+        res = err_value(0);
+    } else
+        res = __alter(p, func, path[len - 1], val);
 
+    if (cur == NULL) {
+        if (!IS_ERR(res))
+            return obj;
+        drop_obj(obj);
         return res;
     }
 
-    if (x[0]->type != -TYPE_SYMBOL)
+    if (IS_ERR(res) && copied) {
+        drop_obj(obj);
         return res;
+    }
 
-    // If the object was reallocated (e.g., by push_obj), update the reference
-    // Note: we don't drop *cur if obj == *cur originally, since they're the same object
-    // and res is already pointing to the (possibly reallocated) version
-    if (obj != *cur) {
-        // obj was a copy, so drop the original
+    // the object could have been moved
+    if (copied)
         drop_obj(*cur);
-        *cur = res;
-    } else if (res != obj) {
-        // obj was not a copy (cow returned same object), but it got reallocated
-        // So just update the pointer without dropping
-        *cur = res;
-    }
+    *cur = obj;
 
-    return clone_obj(x[0]);
+    return IS_ERR(res) ? res : clone_obj(x);
 }
 
-obj_p ray_modify(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur, idx;
-
-    cur = NULL;
+obj_p ray_alter(obj_p *x, i64_t n) {
+    obj_p path;
 
-    if (n < 4)
-        return err_arity(4, n, 0);
+    if (n < 3 || n > 4)
+        return err_arity(3, n, 0);
 
     if (x[1]->type < TYPE_LAMBDA || x[1]->type > TYPE_VARY)
         return err_type(0, 0, 0, 0);
 
-    if (x[0]->type == -TYPE_SYMBOL) {
-        cur = resolve(x[0]->i64);
-        if (cur == NULL)
-            return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        // the argument belongs to the caller, even when it is the only reference
-        obj = copy_obj(x[0]);
-        if (IS_ERR(obj))
-            return obj;
-    }
+    path = (n == 4) ? x[2] : NULL_OBJ;
 
-    res = dot_obj(obj, x[2]);
-    if (IS_ERR(res))
-        return res;
+    return __alter_path(x[0], x[1], &path, 1, x[n - 1]);
+}
 
-    idx = ray_last(x[2]);
-    if (IS_ERR(idx))
-        return idx;
+obj_p ray_modify(obj_p *x, i64_t n) {
+    i64_t i, l;
+    obj_p path, res;
 
-    res = __alter(&res, x[1], idx, x[3]);
-    drop_obj(idx);
+    if (n != 4)
+        return err_arity(4, n, 0);
 
-    if (IS_ERR(res))
-        return res;
+    if (x[1]->type < TYPE_LAMBDA || x[1]->type > TYPE_VARY)
+        return err_type(0, 0, 0, 0);
 
-    if (x[0]->type != -TYPE_SYMBOL)
-        return obj;
+    if (!IS_VECTOR(x[2]))
+        return __alter_path(x[0], x[1], x + 2, 1, x[3]);
 
-    if (cur != NULL && (*cur) != obj) {
-        drop_obj(*cur);
-        *cur = obj;
-    }
+    l = ops_count(x[2]);
+    if (l == 0)
+        return err_value(0);
+
+    path = LIST(l);
+    for (i = 0; i < l; i++)
+        AS_LIST(path)[i] = at_idx(x[2], i);
 
-    return clone_obj(x[0]);
+    res = __alter_path(x[0], x[1], AS_LIST(path), l, x[3]);
+    drop_obj(path);
+
+    return res;
 }
 
 /*
-- 
2.43.0


From f40389060a6a6dca9b1388d9ba1e26a80d6499e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 44/98] fix: insert and upsert check rows before changing the
 table, keep columns of one length and one type, and do not free it on errors

---
 core/update.c | 469 ++++++++++++++++++++++++--------------------------
 1 file changed, 227 insertions(+), 242 deletions(-)

diff --git a/core/update.c b/core/update.c
index 5899bed..9f930ab 100644
--- a/core/update.c
+++ b/core/update.c
@@ -132,6 +132,90 @@ i64_t __find_symbol_idx(obj_p symbols, i64_t sym) {
     return NULL_I64;
 }
 
+// The rows to be added are a single record when any of the values is an atom, otherwise they are vectors of values
+static b8_t __is_record(obj_p lst) {
+    i64_t i, l = lst->len;
+
+    for (i = 0; i < l; i++)
+        if (IS_ATOM(AS_LIST(lst)[i]))
+            return B8_TRUE;
+
+    return B8_FALSE;
+}
+
+static i8_t __row_type(obj_p col) { return (col->type == TYPE_ENUM) ? TYPE_SYMBOL : col->type; }
+
+// Null value for a column
+static obj_p __null_row(obj_p col) { return null(__row_type(col)); }
+
+// Vector of null values for a column
+static obj_p __null_rows(obj_p col, i64_t n) {
+    obj_p res;
+
+    if (col->type != TYPE_C8)
+        return nullv((col->type == TYPE_MAPLIST) ? TYPE_LIST : __row_type(col), n);
+
+    res = C8(n);
+    memset(AS_C8(res), 0, n);
+
+    return res;
+}
+
+// Checks that a list of values suits the columns of a table: returns an error or NULL_OBJ
+static obj_p __check_rows(obj_p tab, obj_p lst, b8_t *single, i64_t *count) {
+    i64_t i, l = lst->len;
+    i8_t ct, vt;
+    obj_p v;
+
+    if (l == 0 || l > AS_LIST(tab)[0]->len)
+        return err_length(AS_LIST(tab)[0]->len, l, 0, 0, 0, 0);
+
+    *single = __is_record(lst);
+    *count = *single ? 1 : ops_count(AS_LIST(lst)[0]);
+
+    if (*count == 0)
+        return err_length(0, 0, 0, 0, 0, 0);
+
+    for (i = 0; i < l; i++) {
+        v = AS_LIST(lst)[i];
+        ct = __row_type(AS_LIST(AS_LIST(tab)[1])[i]);
+        vt = __row_type(v);
+
+        if (*single) {
+            // a column of a simple type takes atoms only
+            if (ct != TYPE_LIST && ct != TYPE_MAPLIST && vt != -ct)
+                return err_type(-ct, vt, 0, 0);
+        } else {
+            if (!IS_VECTOR(v) || (ct != TYPE_LIST && ct != TYPE_MAPLIST && vt != ct))
+                return err_type(ct, vt, 0, 0);
+
+            if (ops_count(v) != *count)
+                return err_length(*count, ops_count(v), 0, 0, 0, 0);
+        }
+    }
+
+    return NULL_OBJ;
+}
+
+// Makes names, columns and the list of columns safe to be changed in place: returns an error or NULL_OBJ
+static obj_p __own_columns(obj_p tab) {
+    i64_t i, l;
+    obj_p res;
+
+    res = cow_ref(AS_LIST(tab) + 1);
+    if (IS_ERR(res))
+        return res;
+
+    l = AS_LIST(tab)[1]->len;
+    for (i = 0; i < l; i++) {
+        res = cow_ref(AS_LIST(AS_LIST(tab)[1]) + i);
+        if (IS_ERR(res))
+            return res;
+    }
+
+    return NULL_OBJ;
+}
+
 /*
  * Reorder input values to match the table's column order.
  * Handles both single records (list of atoms) and multiple records (list of vectors).
@@ -145,7 +229,6 @@ i64_t __find_symbol_idx(obj_p symbols, i64_t sym) {
  */
 obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, obj_p input_vals) {
     i64_t i, j, tc, ic, rec_count;
-    i8_t col_type;
     obj_p reordered;
     i64_t *tcols, *icols;
     b8_t is_single_record;
@@ -162,8 +245,23 @@ obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, ob
         }
     }
 
+    // A vector of values is a single record as well
+    if (input_vals->type != TYPE_LIST) {
+        if (!IS_VECTOR(input_vals))
+            return err_type(TYPE_LIST, input_vals->type, 0, 0);
+
+        input_vals = ray_diverse(input_vals);
+        reordered = __reorder_columns(table_cols, table_vals, input_cols, input_vals);
+        drop_obj(input_vals);
+
+        return reordered;
+    }
+
+    if (ic == 0)
+        return err_length(0, 0, 0, 0, 0, 0);
+
     // Determine if this is a single record or multiple records
-    is_single_record = IS_ATOM(AS_LIST(input_vals)[0]);
+    is_single_record = __is_record(input_vals);
 
     if (is_single_record) {
         // Single record: create a reordered list of atoms
@@ -175,15 +273,14 @@ obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, ob
 
             if (j == NULL_I64) {
                 // Column not in input - use null with the correct type from table
-                col_type = AS_LIST(table_vals)[i]->type;
-                AS_LIST(reordered)[i] = null(col_type);
+                AS_LIST(reordered)[i] = __null_row(AS_LIST(table_vals)[i]);
             } else {
                 AS_LIST(reordered)[i] = clone_obj(AS_LIST(input_vals)[j]);
             }
         }
     } else {
         // Multiple records: create a reordered list of vectors
-        rec_count = AS_LIST(input_vals)[0]->len;
+        rec_count = ops_count(AS_LIST(input_vals)[0]);
         reordered = LIST(tc);
 
         for (i = 0; i < tc; i++) {
@@ -192,8 +289,7 @@ obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, ob
 
             if (j == NULL_I64) {
                 // Column not in input - use null vector with the correct type
-                col_type = AS_LIST(table_vals)[i]->type;
-                AS_LIST(reordered)[i] = nullv(col_type, rec_count);
+                AS_LIST(reordered)[i] = __null_rows(AS_LIST(table_vals)[i], rec_count);
             } else {
                 AS_LIST(reordered)[i] = clone_obj(AS_LIST(input_vals)[j]);
             }
@@ -434,8 +530,8 @@ obj_p ray_modify(obj_p *x, i64_t n) {
 
 obj_p ray_insert(obj_p *x, i64_t n) {
     i64_t i, m, l;
-    obj_p lst, col, *val = NULL, obj, res, original;
-    b8_t need_drop, lst_allocated;
+    obj_p lst, col, *cols, *val = NULL, obj, res, original;
+    b8_t single, lst_allocated;
 
     if (n != 2)
         return err_arity(2, n, 0);
@@ -477,83 +573,33 @@ obj_p ray_insert(obj_p *x, i64_t n) {
         lst_allocated = B8_TRUE;
     }
 
-    switch (lst->type) {
-        case TYPE_LIST:
-            l = lst->len;
-            // With column reordering, we might have fewer columns than the table
-            // but not more. The missing columns should be filled with nulls.
-            if (l > AS_LIST(obj)[0]->len) {
-                res = err_length(0, 0, 0, 0, 0, 0);
-                INSERT_ERROR(res);
-            }
-
-            // There is one record to be inserted
-            if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Check all the elements of the list
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-                }
-
-                // Insert the record now
-                for (i = 0; i < l; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    need_drop = (col != AS_LIST(AS_LIST(obj)[1])[i]);
-                    res = push_obj(&col, clone_obj(AS_LIST(lst)[i]));
-                    if (IS_ERR(res)) {
-                        if (need_drop)
-                            drop_obj(col);
-                        INSERT_ERROR(res);
-                    }
-                    if (need_drop)
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-            } else {
-                // There are multiple records to be inserted
-                m = AS_LIST(lst)[0]->len;
-                if (m == 0) {
-                    res = err_length(0, 0, 0, 0, 0, 0);
-                    INSERT_ERROR(res);
-                }
-
-                // Check all the elements of the list
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-
-                    if (AS_LIST(lst)[i]->len != m) {
-                        res = err_length(0, 0, 0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-                }
-
-                // Insert all the records now
-                for (i = 0; i < l; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    need_drop = (col != AS_LIST(AS_LIST(obj)[1])[i]);
-                    res = append_list(&col, AS_LIST(lst)[i]);
-                    if (IS_ERR(res)) {
-                        if (need_drop)
-                            drop_obj(col);
-                        INSERT_ERROR(res);
-                    }
-                    if (need_drop)
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-            }
-
-            break;
+    if (lst->type != TYPE_LIST) {
+        res = err_type(TYPE_LIST, lst->type, 0, 0);
+        INSERT_ERROR(res);
+    }
 
-        default:
-            res = err_type(0, 0, 0, 0);
-            INSERT_ERROR(res);
+    res = __check_rows(obj, lst, &single, &m);
+    if (IS_ERR(res))
+        INSERT_ERROR(res);
+
+    res = __own_columns(obj);
+    if (IS_ERR(res))
+        INSERT_ERROR(res);
+
+    // Insert the record (or all the records) now, missing columns are filled with nulls
+    l = lst->len;
+    n = AS_LIST(obj)[1]->len;
+    for (i = 0; i < n; i++) {
+        cols = AS_LIST(AS_LIST(obj)[1]);
+        if (single)
+            push_obj(cols + i, (i < l) ? clone_obj(AS_LIST(lst)[i]) : __null_row(cols[i]));
+        else {
+            col = (i >= l)                                    ? __null_rows(cols[i], m)
+                  : (AS_LIST(lst)[i]->type == TYPE_ENUM)      ? ray_value(AS_LIST(lst)[i])
+                                                              : clone_obj(AS_LIST(lst)[i]);
+            append_list(cols + i, col);
+            drop_obj(col);
+        }
     }
 
     if (lst_allocated)
@@ -566,19 +612,19 @@ obj_p ray_insert(obj_p *x, i64_t n) {
 /*
  * update/inserts for tables
  */
-#define UPSERT_ERROR(r)    \
-    {                      \
-        if (lst_allocated) \
-            drop_obj(lst); \
-        drop_obj(obj);     \
-        return r;          \
+#define UPSERT_ERROR(r)                   \
+    {                                     \
+        res = r;                          \
+        if (lst_allocated)                \
+            drop_obj(lst);                \
+        UNCOW_OBJ(obj, val, original, res); \
     }
 
 obj_p ray_upsert(obj_p *x, i64_t n) {
-    i64_t i, j, m, p, l, ll, keys;
-    i64_t row, *rows;
-    obj_p obj, k1, k2, idx, col, lst, *val = NULL, v, original, res;
-    b8_t lst_allocated;
+    i64_t i, j, m, p, l, keys;
+    i64_t row, count, *rows;
+    obj_p obj, k1, k2, idx, first, lst, *cols, *val = NULL, v, original, res;
+    b8_t single, lst_allocated = B8_FALSE;
 
     if (n != 3)
         return err_arity(3, n, 0);
@@ -594,180 +640,119 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
     if (IS_ERR(obj))
         return obj;
 
-    if (obj->type != TYPE_TABLE) {
-        drop_obj(obj);
-        return err_type(0, 0, 0, 0);
-    }
+    lst = x[2];
 
-    p = AS_LIST(obj)[0]->len;
+    if (obj->type != TYPE_TABLE)
+        UPSERT_ERROR(err_type(TYPE_TABLE, obj->type, 0, 0));
 
-    lst = x[2];
-    lst_allocated = B8_FALSE;
+    p = AS_LIST(obj)[0]->len;
 
     // Handle dict/table input: reorder columns to match table order
     if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
-        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            drop_obj(obj);
-            return err_type(0, 0, 0, 0);
-        }
+        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL)
+            UPSERT_ERROR(err_type(0, 0, 0, 0));
 
         // Check that input doesn't have more columns than table
         l = AS_LIST(lst)[0]->len;
-        if (l > p) {
-            drop_obj(obj);
-            return err_length(0, 0, 0, 0, 0, 0);
-        }
+        if (l > p)
+            UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
 
         // Reorder columns to match table order (allows flexible column ordering)
-        res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res)) {
-            drop_obj(obj);
-            return res;
-        }
+        v = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
+        if (IS_ERR(v))
+            UPSERT_ERROR(v);
 
-        lst = res;
+        lst = v;
         lst_allocated = B8_TRUE;
     }
 
-    switch (lst->type) {
-        case TYPE_LIST:
-            l = ops_count(lst);
-
-            if (l == 0)
-                UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-
-            if (l > p)
-                UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-
-            // Check if this is a single record (atoms) or multiple records (vectors)
-            if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Single record case - validate all elements are atoms or compatible
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        UPSERT_ERROR(err_type(0, 0, 0, 0));
-                    }
-                }
-
-                // Build key for lookup
-                if (keys == 1) {
-                    k1 = at_idx(AS_LIST(obj)[1], 0);
-                    k2 = clone_obj(AS_LIST(lst)[0]);
-                } else {
-                    k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                    k2 = ray_take(lst, x[1]);
-                }
-
-                idx = index_upsert_obj(k2, k1, x[1]->i64);
-
-                drop_obj(k1);
-                drop_obj(k2);
-
-                if (IS_ERR(idx))
-                    UPSERT_ERROR(idx);
-
-                row = AS_I64(idx)[0];
-                drop_obj(idx);
-
-                // Process each column
-                for (i = 0; i < p; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    if (col != AS_LIST(AS_LIST(obj)[1])[i]) {
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                        AS_LIST(AS_LIST(obj)[1])[i] = col;
-                    }
-
-                    // Insert record
-                    if (row == NULL_I64) {
-                        v = (i < l) ? clone_obj(AS_LIST(lst)[i]) : null(AS_LIST(AS_LIST(obj)[1])[i]->type);
-                        push_obj(AS_LIST(AS_LIST(obj)[1]) + i, v);
-                    }
-                    // Update record (skip keys since they match, and only update provided columns)
-                    else if (i >= keys && i < l) {
-                        set_idx(AS_LIST(AS_LIST(obj)[1]) + i, row, clone_obj(AS_LIST(lst)[i]));
-                    }
-                }
-
-                if (lst_allocated)
-                    drop_obj(lst);
-                return __commit(x[0], obj, val);
-            }
-
-            // Multiple records case - validate the list contains vectors
-            ll = AS_LIST(lst)[0]->len;
-            for (i = 0; i < l; i++) {
-                if (!IS_VECTOR(AS_LIST(lst)[i]))
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
-
-                if (AS_LIST(lst)[i]->len != ll)
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-            }
+    if (lst->type != TYPE_LIST)
+        UPSERT_ERROR(err_type(TYPE_LIST, lst->type, 0, 0));
 
-            if (keys == 1) {
-                k1 = at_idx(AS_LIST(obj)[1], 0);
-                k2 = at_idx(lst, 0);
-                m = ops_count(k2);
-            } else {
-                k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                k2 = ray_take(lst, x[1]);
-                m = ops_count(AS_LIST(k2)[0]);
-            }
+    v = __check_rows(obj, lst, &single, &m);
+    if (IS_ERR(v))
+        UPSERT_ERROR(v);
 
-            idx = index_upsert_obj(k2, k1, x[1]->i64);
+    // the keys have to be there
+    l = lst->len;
+    if (keys > l)
+        UPSERT_ERROR(err_length(keys, l, 0, 0, 0, 0));
 
-            drop_obj(k1);
-            drop_obj(k2);
+    v = __own_columns(obj);
+    if (IS_ERR(v))
+        UPSERT_ERROR(v);
+
+    // Key columns of the table and of the input, as vectors
+    k1 = LIST(keys);
+    k2 = LIST(keys);
+    for (i = 0; i < keys; i++) {
+        AS_LIST(k1)[i] = clone_obj(AS_LIST(AS_LIST(obj)[1])[i]);
+        v = AS_LIST(lst)[i];
+        if (single) {
+            AS_LIST(k2)[i] = vector(AS_LIST(k1)[i]->type, 1);
+            if (AS_LIST(k2)[i]->type == TYPE_LIST)
+                AS_LIST(AS_LIST(k2)[i])[0] = clone_obj(v);
+            else
+                ins_obj(AS_LIST(k2) + i, 0, clone_obj(v));
+        } else
+            AS_LIST(k2)[i] = (v->type == TYPE_ENUM) ? ray_value(v) : clone_obj(v);
+    }
 
-            if (IS_ERR(idx))
-                UPSERT_ERROR(idx);
+    // Rows of the table with the same keys, and the first rows of the input with the same keys
+    if (keys == 1) {
+        idx = index_upsert_obj(AS_LIST(k2)[0], AS_LIST(k1)[0], 1);
+        first = index_upsert_obj(AS_LIST(k2)[0], AS_LIST(k2)[0], 1);
+    } else {
+        idx = index_upsert_obj(k2, k1, keys);
+        first = index_upsert_obj(k2, k2, keys);
+    }
 
-            // Check all the elements of the list
-            for (i = 0; i < l; i++) {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
-                }
+    drop_obj(k1);
+    drop_obj(k2);
 
-                if (AS_LIST(lst)[i]->len != m) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-                }
-            }
+    if (IS_ERR(idx) || IS_ERR(first)) {
+        v = IS_ERR(idx) ? idx : first;
+        drop_obj(IS_ERR(idx) ? first : idx);
+        UPSERT_ERROR(v);
+    }
 
-            rows = AS_I64(idx);
+    rows = AS_I64(idx);
+    count = ops_count(obj);
 
-            // Process each column
-            for (i = 0; i < p; i++) {
-                col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                if (col != AS_LIST(AS_LIST(obj)[1])[i]) {
-                    drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
+    // Where the rows go: a new key is appended once, the following rows with that key update it
+    for (j = 0; j < m; j++) {
+        if (rows[j] != NULL_I64)
+            continue;
 
-                for (j = 0; j < m; j++) {
-                    row = rows[j];
+        row = AS_I64(first)[j];
+        rows[j] = (row == NULL_I64 || row >= j) ? count++ : rows[row];
+    }
 
-                    // Insert record
-                    if (row == NULL_I64) {
-                        v = (i < l) ? at_idx(AS_LIST(lst)[i], j) : null(AS_LIST(AS_LIST(obj)[1])[i]->type);
-                        push_obj(AS_LIST(AS_LIST(obj)[1]) + i, v);
-                    }
-                    // Update record (we can skip the keys since they are matches, and only update provided columns)
-                    else if (i >= keys && i < l) {
-                        v = at_idx(AS_LIST(lst)[i], j);
-                        set_idx(AS_LIST(AS_LIST(obj)[1]) + i, row, v);
-                    }
-                }
-            }
+    // Process each column
+    for (i = 0; i < p; i++) {
+        cols = AS_LIST(AS_LIST(obj)[1]);
+
+        for (j = 0; j < m; j++) {
+            v = (i >= l) ? NULL_OBJ : single ? clone_obj(AS_LIST(lst)[i]) : at_idx(AS_LIST(lst)[i], j);
+
+            // Insert record
+            if (rows[j] >= cols[i]->len)
+                push_obj(cols + i, (i < l) ? v : __null_row(cols[i]));
+            // Update record (we can skip the keys since they are matches, and only update provided columns)
+            else if (i >= keys && i < l)
+                set_idx(cols + i, rows[j], v);
+            else
+                drop_obj(v);
+        }
+    }
 
-            drop_obj(idx);
+    drop_obj(idx);
+    drop_obj(first);
 
-            if (lst_allocated)
-                drop_obj(lst);
-            return __commit(x[0], obj, val);
+    if (lst_allocated)
+        drop_obj(lst);
 
-        default:
-            UPSERT_ERROR(err_type(0, 0, 0, 0));
-    }
+    return __commit(x[0], obj, val);
 }
 #undef UPSERT_ERROR
 
-- 
2.43.0


From e5cea32917f15f48269fafc03dfa304d9e936f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 45/98] fix: update by several columns, of new columns and by
 groups checks types and lengths first and keeps the table valid on errors

---
 core/query.h  |   1 +
 core/update.c | 217 ++++++++++++++++++++++++++++----------------------
 2 files changed, 124 insertions(+), 94 deletions(-)

diff --git a/core/query.h b/core/query.h
index 49cf1e5..4a9e800 100644
--- a/core/query.h
+++ b/core/query.h
@@ -45,6 +45,7 @@ nil_t query_ctx_destroy(query_ctx_p ctx);
 obj_p get_fields(obj_p obj);
 obj_p remap_filter(obj_p x, obj_p y);
 obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_p ctx);
+obj_p get_gvals(obj_p obj);
 obj_p ray_select(obj_p obj);
 
 #endif  // QUERY_H
diff --git a/core/update.c b/core/update.c
index 9f930ab..1dae0f0 100644
--- a/core/update.c
+++ b/core/update.c
@@ -216,6 +216,30 @@ static obj_p __own_columns(obj_p tab) {
     return NULL_OBJ;
 }
 
+// Makes a column safe to be changed in place, adds it filled with nulls if there is no such column yet.
+// Returns an error or NULL_OBJ
+static obj_p __own_column(obj_p tab, i64_t name, i8_t type) {
+    i64_t j;
+    obj_p res;
+
+    res = cow_ref(AS_LIST(tab));
+    if (!IS_ERR(res))
+        res = cow_ref(AS_LIST(tab) + 1);
+    if (IS_ERR(res))
+        return res;
+
+    j = find_raw(AS_LIST(tab)[0], &name);
+    if (j == NULL_I64) {
+        push_obj(AS_LIST(tab) + 1, nullv(type, ops_count(tab)));
+        push_raw(AS_LIST(tab), &name);
+        return NULL_OBJ;
+    }
+
+    res = cow_ref(AS_LIST(AS_LIST(tab)[1]) + j);
+
+    return IS_ERR(res) ? res : NULL_OBJ;
+}
+
 /*
  * Reorder input values to match the table's column order.
  * Handles both single records (list of atoms) and multiple records (list of vectors).
@@ -756,13 +780,28 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 }
 #undef UPSERT_ERROR
 
-obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p groupby) {
+// Checks that there is a value for every row of a table in each of the columns it is grouped by
+static obj_p group_check(obj_p cols, b8_t multi, i64_t len) {
+    i64_t i, l = multi ? cols->len : 1;
+    obj_p col;
+
+    for (i = 0; i < l; i++) {
+        col = multi ? AS_LIST(cols)[i] : cols;
+        if (IS_ATOM(col) || ops_count(col) != len)
+            return err_length(len, ops_count(col), 0, 0, 0, 0);
+    }
+
+    return NULL_OBJ;
+}
+
+obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p index) {
     i64_t i, l, m, n;
     i64_t j, *ids;
-    obj_p prm, obj, *val = NULL, gids, v, col, index, res, original;
+    i8_t t = TYPE_LIST;
+    obj_p prm, obj, *val = NULL, gids, v, res, original;
 
     // No filters nor groupings
-    if (filters == NULL_OBJ && groupby == NULL_OBJ) {
+    if (filters == NULL_OBJ && index == NULL_OBJ) {
         prm = vn_list(4, tab, env_get_internal_function_by_id(SYMBOL_SET), keys, vals);
         obj = ray_alter(AS_LIST(prm), prm->len);
         drop_obj(prm);
@@ -770,75 +809,62 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         return obj;
     }
     // Groupings
-    else if (groupby != NULL_OBJ) {
+    else if (index != NULL_OBJ) {
         obj = __fetch(tab, &val, &original);
         if (IS_ERR(obj)) {
             drop_obj(tab);
             drop_obj(keys);
             drop_obj(vals);
             drop_obj(filters);
-            drop_obj(groupby);
+            drop_obj(index);
 
             return obj;
         }
 
         l = keys->len;
 
-        index = index_group(groupby, filters);
-        gids = aggr_row(groupby, index);
+        gids = aggr_row(vals, index);
         drop_obj(index);
-        drop_obj(groupby);
         n = gids->len;
 
-        // Check each column
-        for (i = 0; i < l; i++) {
+        // Check each column: every group takes either one value or as many as it has rows
+        res = NULL_OBJ;
+        for (i = 0; i < l && !IS_ERR(res); i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+            v = AS_LIST(vals)[i];
 
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
-            else {
-                for (m = 0; m < n; m++) {
-                    v = at_idx(AS_LIST(vals)[i], m);
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], v)) {
-                        res = err_type(0, 0, 0, 0);
-                        drop_obj(v);
-                        drop_obj(tab);
-                        drop_obj(keys);
-                        drop_obj(vals);
-                        drop_obj(filters);
-                        drop_obj(gids);
-                        UNCOW_OBJ(obj, val, original, res);
-                    }
-
-                    if (!__suitable_lengths(AS_LIST(AS_LIST(obj)[1])[j], obj)) {
-                        res = err_length(0, 0, 0, 0, 0, 0);
-                        drop_obj(v);
-                        drop_obj(tab);
-                        drop_obj(keys);
-                        drop_obj(vals);
-                        drop_obj(filters);
-                        drop_obj(gids);
-                        UNCOW_OBJ(obj, val, original, res);
-                    }
+            if (IS_VECTOR(v) && ops_count(v) != n)
+                res = err_length(n, ops_count(v), 0, 0, 0, 0);
 
-                    drop_obj(v);
-                }
-            }
-        }
+            for (m = 0; m < n && !IS_ERR(res); m++) {
+                v = at_idx(AS_LIST(vals)[i], m);
+                t = (m == 0) ? v->type : t;
 
-        // Cow each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+                if (j != NULL_I64 && !__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], v))
+                    res = err_type(0, 0, 0, 0);
+                else if (IS_VECTOR(v) && v->type != TYPE_C8 && ops_count(v) != AS_LIST(gids)[m]->len)
+                    res = err_length(AS_LIST(gids)[m]->len, ops_count(v), 0, 0, 0, 0);
+                else if (v->type == TYPE_C8 && j != NULL_I64 && AS_LIST(AS_LIST(obj)[1])[j]->type == TYPE_C8 &&
+                         v->len != AS_LIST(gids)[m]->len)
+                    res = err_length(AS_LIST(gids)[m]->len, v->len, 0, 0, 0, 0);
+                // a new column has the type of the values, if it is the same for all of the groups
+                else if (v->type != t && -v->type != t)
+                    t = TYPE_LIST;
 
-            col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-            if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
-                drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-                AS_LIST(AS_LIST(obj)[1])[j] = col;
+                drop_obj(v);
             }
+
+            if (!IS_ERR(res))
+                res = __own_column(obj, AS_I64(keys)[i], (n > 0) ? t : AS_LIST(vals)[i]->type);
+        }
+
+        if (IS_ERR(res)) {
+            drop_obj(tab);
+            drop_obj(keys);
+            drop_obj(vals);
+            drop_obj(filters);
+            drop_obj(gids);
+            UNCOW_OBJ(obj, val, original, res);
         }
 
         // Update by groups
@@ -876,51 +902,40 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         l = keys->len;
 
         // Check each column
-        for (i = 0; i < l; i++) {
+        res = NULL_OBJ;
+        for (i = 0; i < l && !IS_ERR(res); i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
+            v = AS_LIST(vals)[i];
+
+            if (j != NULL_I64 && !__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], v))
+                res = err_type(0, 0, 0, 0);
+            // When using filters, allow:
+            // 1. Scalars (atoms) - will be applied to all filtered rows (strings too, unless the column is a string)
+            // 2. Vectors matching filter length - one value per filtered row
+            // 3. Vectors matching full table length - will use first filter->len elements
+            else if (IS_VECTOR(v) &&
+                     !(v->type == TYPE_C8 && (j == NULL_I64 || AS_LIST(AS_LIST(obj)[1])[j]->type == TYPE_LIST)) &&
+                     ops_count(v) != filters->len && ops_count(v) != ops_count(obj))
+                res = err_length(filters->len, ops_count(v), 0, 0, 0, 0);
             else {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], AS_LIST(vals)[i])) {
-                    res = err_type(0, 0, 0, 0);
-                    drop_obj(tab);
-                    drop_obj(keys);
-                    drop_obj(vals);
-                    drop_obj(filters);
-                    UNCOW_OBJ(obj, val, original, res);
-                }
-
-                // When using filters, allow:
-                // 1. Scalars (atoms) - will be applied to all filtered rows
-                // 2. Vectors matching filter length - one value per filtered row
-                // 3. Vectors matching full table length - will use first filter->len elements
-                i64_t vals_len = ops_count(AS_LIST(vals)[i]);
-                if (!IS_ATOM(AS_LIST(vals)[i]) && vals_len != filters->len &&
-                    vals_len != AS_LIST(AS_LIST(obj)[1])[j]->len) {
-                    res = err_length(0, 0, 0, 0, 0, 0);
-                    drop_obj(tab);
-                    drop_obj(keys);
-                    drop_obj(vals);
-                    drop_obj(filters);
-                    UNCOW_OBJ(obj, val, original, res);
+                if (IS_VECTOR(v) && v->type != TYPE_C8 && ops_count(v) != filters->len) {
+                    // take the first ones
+                    prm = i64(filters->len);
+                    AS_LIST(vals)[i] = ray_take(v, prm);
+                    drop_obj(prm);
+                    drop_obj(v);
+                    v = AS_LIST(vals)[i];
                 }
+                res = __own_column(obj, AS_I64(keys)[i], v->type);
             }
         }
 
-        // Cow each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-
-            col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-            if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
-                drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-                AS_LIST(AS_LIST(obj)[1])[j] = col;
-            }
+        if (IS_ERR(res)) {
+            drop_obj(tab);
+            drop_obj(keys);
+            drop_obj(vals);
+            drop_obj(filters);
+            UNCOW_OBJ(obj, val, original, res);
         }
 
         ids = AS_I64(filters);
@@ -945,6 +960,7 @@ obj_p ray_update(obj_p obj) {
     i64_t i, keyslen;
     obj_p tabsym, keys = NULL_OBJ, vals = NULL_OBJ, filters = NULL_OBJ, bins = NULL_OBJ, groupby = NULL_OBJ, tab, sym,
                   prm, val, res;
+    b8_t multi;
     struct query_ctx_t ctx;
 
     if (obj->type != TYPE_DICT)
@@ -1016,7 +1032,9 @@ obj_p ray_update(obj_p obj) {
     // Apply groupping
     prm = at_sym(obj, "by", 2);
     if (prm != NULL_OBJ) {
-        groupby = eval(prm);
+        // several columns come as a dictionary
+        multi = prm->type == TYPE_DICT && AS_LIST(prm)[0]->len > 1;
+        groupby = get_gvals(prm);
         drop_obj(prm);
 
         if (IS_ERR(groupby)) {
@@ -1025,9 +1043,18 @@ obj_p ray_update(obj_p obj) {
             goto cleanup;
         }
 
-        bins = index_group(groupby, filters);
+        res = group_check(groupby, multi, ops_count(tab));
+        if (IS_ERR(res))
+            goto cleanup;
+
+        bins = multi ? index_group_list(groupby, filters) : index_group(groupby, filters);
+        if (IS_ERR(bins)) {
+            res = bins;
+            bins = NULL_OBJ;
+            goto cleanup;
+        }
+
         prm = group_map(tab, bins);
-        drop_obj(bins);
 
         if (IS_ERR(prm)) {
             res = prm;
@@ -1091,11 +1118,12 @@ obj_p ray_update(obj_p obj) {
         drop_obj(ctx.table);
     ctx.table = NULL_OBJ;
     drop_obj(tab);
+    drop_obj(groupby);
 
     query_ctx_destroy(&ctx);
 
     // This one will take care of dropping all the arguments
-    return __update_table(tabsym, keys, vals, filters, groupby);
+    return __update_table(tabsym, keys, vals, filters, bins);
 
 cleanup:
     if (ctx.table != tab && ctx.table != NULL_OBJ)
@@ -1108,5 +1136,6 @@ cleanup:
     drop_obj(vals);
     drop_obj(filters);
     drop_obj(groupby);
+    drop_obj(bins);
     return res;
 }
-- 
2.43.0


From 81aad6d512b3bf47dd3710ae3e5f540db41f777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 46/98] fix: select keeps its own columns apart from parameter
 names, checks the lengths of by columns and refuses non-dictionaries without
 leaving a stale query context

---
 core/query.c  | 46 ++++++++++++++++++++++++++--------------------
 core/query.h  |  2 ++
 core/update.c | 14 --------------
 3 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/core/query.c b/core/query.c
index 6a36c02..cc26627 100644
--- a/core/query.c
+++ b/core/query.c
@@ -38,10 +38,29 @@
 
 obj_p remap_filter(obj_p tab, obj_p index) { return filter_map(tab, index); }
 
+obj_p group_check(obj_p cols, b8_t multi, i64_t len) {
+    i64_t i, l = multi ? cols->len : 1;
+    obj_p col;
+
+    for (i = 0; i < l; i++) {
+        col = multi ? AS_LIST(cols)[i] : cols;
+        if (IS_ATOM(col) || ops_count(col) != len)
+            return err_length(len, ops_count(col), 0, 0, 0, 0);
+    }
+
+    return NULL_OBJ;
+}
+
 obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_p ctx) {
     i64_t i, l, n, *first_ids, *filter_ids;
     obj_p index, v, lst, res, src_col;
 
+    if (gkeys->type == -TYPE_SYMBOL || gkeys->type == TYPE_SYMBOL) {
+        res = group_check(cols, gkeys->type == TYPE_SYMBOL, ops_count(ctx->table));
+        if (IS_ERR(res))
+            return res;
+    }
+
     switch (gkeys->type) {
         case -TYPE_SYMBOL:
             index = index_group(cols, ctx->filter);
@@ -472,8 +491,8 @@ obj_p select_apply_mappings(obj_p obj, query_ctx_p ctx) {
 }
 
 obj_p select_collect_fields(query_ctx_p ctx) {
-    i64_t i, l;
-    obj_p prm, sym, val, keys, res;
+    i64_t i, j, l;
+    obj_p prm, val, keys, res;
 
     // Already collected by mappings
     if (!is_null(ctx->query_fields))
@@ -486,19 +505,10 @@ obj_p select_collect_fields(query_ctx_p ctx) {
         res = LIST(l);
 
         for (i = 0; i < l; i++) {
-            sym = at_idx(keys, i);
-            prm = ray_get(sym);
-            drop_obj(sym);
-
-            if (IS_ERR(prm)) {
-                res->len = i;
-                drop_obj(res);
-                drop_obj(keys);
-                return prm;
-            }
+            j = find_raw(AS_LIST(ctx->table)[0], AS_I64(keys) + i);
+            prm = AS_LIST(AS_LIST(ctx->table)[1])[j];
 
             val = aggr_first(AS_LIST(prm)[0], AS_LIST(prm)[1]);
-            drop_obj(prm);
 
             if (IS_ERR(val)) {
                 res->len = i;
@@ -523,18 +533,14 @@ obj_p select_collect_fields(query_ctx_p ctx) {
     res = LIST(l);
 
     for (i = 0; i < l; i++) {
-        sym = at_idx(keys, i);
-        prm = ray_get(sym);
-        drop_obj(sym);
+        prm = AS_LIST(AS_LIST(ctx->table)[1])[i];
 
         switch (prm->type) {
             case TYPE_MAPFILTER:
                 val = filter_collect(AS_LIST(prm)[0], AS_LIST(prm)[1]);
-                drop_obj(prm);
                 break;
             default:
                 val = ray_value(prm);
-                drop_obj(prm);
                 break;
         }
 
@@ -608,14 +614,14 @@ obj_p ray_select(obj_p obj) {
     obj_p res;
     struct query_ctx_t ctx;
 
-    query_ctx_init(&ctx);
-
     if (obj->type != TYPE_DICT)
         return err_type(0, 0, 0, 0);
 
     if (AS_LIST(obj)[0]->type != TYPE_SYMBOL)
         return err_type(0, 0, 0, 0);
 
+    query_ctx_init(&ctx);
+
     timeit_span_start("select");
 
     // Fetch table - ctx.table is set, resolve() will find columns via query_ctx
diff --git a/core/query.h b/core/query.h
index 4a9e800..15ce8cb 100644
--- a/core/query.h
+++ b/core/query.h
@@ -45,6 +45,8 @@ nil_t query_ctx_destroy(query_ctx_p ctx);
 obj_p get_fields(obj_p obj);
 obj_p remap_filter(obj_p x, obj_p y);
 obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_p ctx);
+// Checks that there is a value for every row of a table in each of the columns it is grouped by
+obj_p group_check(obj_p cols, b8_t multi, i64_t len);
 obj_p get_gvals(obj_p obj);
 obj_p ray_select(obj_p obj);
 
diff --git a/core/update.c b/core/update.c
index 1dae0f0..008117b 100644
--- a/core/update.c
+++ b/core/update.c
@@ -780,20 +780,6 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 }
 #undef UPSERT_ERROR
 
-// Checks that there is a value for every row of a table in each of the columns it is grouped by
-static obj_p group_check(obj_p cols, b8_t multi, i64_t len) {
-    i64_t i, l = multi ? cols->len : 1;
-    obj_p col;
-
-    for (i = 0; i < l; i++) {
-        col = multi ? AS_LIST(cols)[i] : cols;
-        if (IS_ATOM(col) || ops_count(col) != len)
-            return err_length(len, ops_count(col), 0, 0, 0, 0);
-    }
-
-    return NULL_OBJ;
-}
-
 obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p index) {
     i64_t i, l, m, n;
     i64_t j, *ids;
-- 
2.43.0


From 8814561f1915b9bd4dade60450d99ae39dcdef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 47/98] fix: except on a list releases only the items it kept
 when a comparison fails and refuses vectors

---
 core/items.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/items.c b/core/items.c
index bdec8de..005ba3d 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1031,8 +1031,14 @@ obj_p ray_except(obj_p x, obj_p y) {
                     for (i = 0, j = 0; i < l; i++) {
                         mask = ray_eq(AS_LIST(x)[i], y);
 
+                        // only an atom may be compared to each of the items
+                        if (!IS_ERR(mask) && mask->type != -TYPE_B8) {
+                            drop_obj(mask);
+                            mask = err_type(AS_LIST(x)[i]->type, y->type, 0, 0);
+                        }
+
                         if (IS_ERR(mask)) {
-                            res->len = i;
+                            res->len = j;
                             drop_obj(res);
                             return mask;
                         }
-- 
2.43.0


From 71e54ce9e96feecab2c77fe0a2edbdc816101334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 48/98] fix: in on an empty vector of any type gives an empty
 boolean vector

---
 core/items.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/items.c b/core/items.c
index 005ba3d..6a9ac3b 100644
--- a/core/items.c
+++ b/core/items.c
@@ -820,6 +820,9 @@ obj_p ray_in(obj_p x, obj_p y) {
         case MTYPE2(TYPE_GUID, TYPE_GUID):
             return index_in_guid_guid(AS_GUID(x), x->len, AS_GUID(y), y->len);
         default:
+            if (IS_VECTOR(x) && x->type != TYPE_LIST && x->len == 0)
+                return B8(0);
+
             if ((IS_VECTOR(y) || y->type == TYPE_LIST) && y->len == 0) {
                 if (IS_VECTOR(x) || x->type == TYPE_LIST) {
                     vec = B8(x->len);
-- 
2.43.0


From 3d326a2533fe6fb3c820dc6038020a661f0b6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 49/98] fix: table checks that its columns have one length;
 concat of dictionaries works for any keys and values; take, raze and filter
 handle enumerations and errors

---
 core/compose.c | 104 +++++++++++++++++++++++++++++--------------------
 core/items.c   |  27 +++++++++----
 2 files changed, 81 insertions(+), 50 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index a1d09b7..cc82976 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -232,7 +232,7 @@ obj_p ray_dict(obj_p x, obj_p y) {
 
 obj_p ray_table(obj_p x, obj_p y) {
     b8_t synergy = B8_TRUE;
-    i64_t i, j, len, cl = 0;
+    i64_t i, j, len, cl = NULL_I64;
     obj_p lst, c, l = NULL_OBJ;
 
     if (x->type != TYPE_SYMBOL)
@@ -252,6 +252,14 @@ obj_p ray_table(obj_p x, obj_p y) {
         return err_length(0, 0, 0, 0, 0, 0);
     }
 
+    // no columns given: all of them are empty
+    if (x->len != y->len) {
+        l = LIST(x->len);
+        for (i = 0; i < x->len; i++)
+            AS_LIST(l)[i] = LIST(0);
+        y = l;
+    }
+
     len = y->len;
 
     for (i = 0; i < len; i++) {
@@ -268,9 +276,6 @@ obj_p ray_table(obj_p x, obj_p y) {
             case -TYPE_TIMESTAMP:
             case -TYPE_F64:
             case -TYPE_GUID:
-            case TYPE_LAMBDA:
-            case TYPE_DICT:
-            case TYPE_TABLE:
                 synergy = B8_FALSE;
                 break;
             case TYPE_B8:
@@ -287,39 +292,48 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_LIST:
             case TYPE_GUID:
                 j = AS_LIST(y)[i]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_ENUM:
                 synergy = B8_FALSE;
                 j = AS_LIST(AS_LIST(y)[i])[1]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_MAPCOMMON:
                 j = AS_LIST(AS_LIST(y)[i])[0]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
                 break;
             default:
-                return err_type(TYPE_LIST, AS_LIST(y)[i]->type, 0, 0);
+                c = err_type(TYPE_LIST, AS_LIST(y)[i]->type, 0, 0);
+                drop_obj(l);
+                return c;
         }
     }
 
     // there are no atoms, no lazytypes and all columns are of the same length
     if (synergy) {
+        y = clone_obj(y);
         drop_obj(l);
-        return table(clone_obj(x), clone_obj(y));
+        return table(clone_obj(x), y);
     }
 
     // otherwise we need to expand atoms to vectors
     lst = vector(TYPE_LIST, len);
 
-    if (cl == 0)
+    if (cl == NULL_I64)
         cl = 1;
 
     for (i = 0; i < len; i++) {
@@ -479,8 +493,8 @@ obj_p ray_rand(obj_p x, obj_p y) {
 }
 
 obj_p ray_concat(obj_p x, obj_p y) {
-    i64_t i, xl, yl;
-    obj_p vec, kx, kxy, ix, iy, dx, dy;
+    i64_t i, j, xl, yl;
+    obj_p vec, kx, kxy, iy, dy;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_B8, -TYPE_B8):
@@ -739,40 +753,46 @@ obj_p ray_concat(obj_p x, obj_p y) {
             return vec;
 
         case MTYPE2(TYPE_DICT, TYPE_DICT):
-            kxy = ray_sect(AS_LIST(x)[0], AS_LIST(y)[0]);
-            dx = ray_except(AS_LIST(x)[0], kxy);
-            dy = ray_except(AS_LIST(y)[0], kxy);
+            kx = AS_LIST(x)[0];
+            kxy = AS_LIST(y)[0];
+            if (kx->type != kxy->type)
+                return err_type(kx->type, kxy->type, 0, 0);
 
-            vec = vector(TYPE_LIST, dx->len + kxy->len + dy->len);
+            xl = ops_count(kx);
+            yl = ops_count(kxy);
 
-            // add items in x that are not in y
-            ix = ray_find(AS_LIST(x)[0], dx);
-            for (i = 0; i < (i64_t)dx->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(x)[1])[AS_I64(ix)[i]]);
+            // items of x
+            vec = LIST(xl);
+            for (i = 0; i < xl; i++)
+                AS_LIST(vec)[i] = at_idx(AS_LIST(x)[1], i);
+
+            // items of y replace the ones with the same key, others are added
+            iy = I64(0);
+            for (i = 0; i < yl; i++) {
+                dy = at_idx(kxy, i);
+                j = find_obj_idx(kx, dy);
+                drop_obj(dy);
+
+                dy = at_idx(AS_LIST(y)[1], i);
+
+                if (j == NULL_I64) {
+                    push_obj(&vec, dy);
+                    push_raw(&iy, &i);
+                } else {
+                    drop_obj(AS_LIST(vec)[j]);
+                    AS_LIST(vec)[j] = dy;
+                }
             }
-            drop_obj(ix);
 
-            // add items in x and y with the same key
-            ix = ray_find(AS_LIST(x)[0], kxy);
-            iy = ray_find(AS_LIST(y)[0], kxy);
-            for (i = 0; i < (i64_t)kxy->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
-            }
-            drop_obj(ix);
+            dy = ray_at(kxy, iy);
             drop_obj(iy);
+            kxy = ray_concat(kx, dy);
+            drop_obj(dy);
 
-            // add items in y that are not in x
-            iy = ray_find(AS_LIST(y)[0], dy);
-            for (i = 0; i < (i64_t)dy->len; i++) {
-                AS_LIST(vec)[i + dx->len + kxy->len] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
-            }
-            drop_obj(iy);
+            if (AS_LIST(x)[1]->type != TYPE_LIST && AS_LIST(x)[1]->type == AS_LIST(y)[1]->type)
+                vec = unify_list(&vec);
 
-            vec = dict(ray_concat(AS_LIST(x)[0], dy), vec);
-            drop_obj(kxy);
-            drop_obj(dx);
-            drop_obj(dy);
-            return vec;
+            return dict(kxy, vec);
 
         case MTYPE2(TYPE_TABLE, TYPE_TABLE):
             kx = ray_key(x);
@@ -1142,7 +1162,7 @@ obj_p ray_raze(obj_p x) {
     v = AS_LIST(x);
 
     // Check if all parts are vectors of the same non-LIST type
-    all_same_vectors = (IS_VECTOR(v[0]) && v[0]->type != TYPE_LIST);
+    all_same_vectors = (v[0]->type > TYPE_LIST && v[0]->type <= TYPE_C8);
     type = v[0]->type;
     total = v[0]->len;
 
@@ -1172,7 +1192,7 @@ obj_p ray_raze(obj_p x) {
         if (v[i]->type == TYPE_LIST)
             total += v[i]->len;
         else if (IS_VECTOR(v[i]))
-            total += v[i]->len;
+            total += ops_count(v[i]);
         else
             total++;
     }
@@ -1184,7 +1204,7 @@ obj_p ray_raze(obj_p x) {
             for (j = 0; j < v[i]->len; j++)
                 AS_LIST(res)[off++] = clone_obj(AS_LIST(v[i])[j]);
         } else if (IS_VECTOR(v[i])) {
-            for (j = 0; j < v[i]->len; j++)
+            for (j = 0; j < ops_count(v[i]); j++)
                 AS_LIST(res)[off++] = at_idx(v[i], j);
         } else {
             AS_LIST(res)[off++] = clone_obj(v[i]);
diff --git a/core/items.c b/core/items.c
index 6a9ac3b..bcbab82 100644
--- a/core/items.c
+++ b/core/items.c
@@ -405,12 +405,22 @@ obj_p ray_filter(obj_p x, obj_p y) {
         case MTYPE2(TYPE_LIST, TYPE_B8):
             __FILTER(x, y, LIST, , = clone_obj, );
 
+        case MTYPE2(TYPE_ENUM, TYPE_B8):
+            res = ray_filter(ENUM_VAL(x), y);
+            return IS_ERR(res) ? res : enumerate(ray_key(x), res);
+
         case MTYPE2(TYPE_TABLE, TYPE_B8):
             vals = AS_LIST(x)[1];
             l = vals->len;
             res = LIST(l);
             for (i = 0; i < l; i++) {
                 AS_LIST(res)[i] = ray_filter(AS_LIST(vals)[i], y);
+                if (IS_ERR(AS_LIST(res)[i])) {
+                    vals = clone_obj(AS_LIST(res)[i]);
+                    res->len = i + 1;
+                    drop_obj(res);
+                    return vals;
+                }
             }
             return table(clone_obj(AS_LIST(x)[0]), res);
 
@@ -628,13 +638,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
@@ -663,8 +673,9 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
+            i = s->type;
             drop_obj(s);
-            if (s->type != TYPE_SYMBOL) {
+            if (i != TYPE_SYMBOL) {
                 drop_obj(k);
                 return res;
             } else
@@ -686,12 +697,12 @@ obj_p ray_take(obj_p from, obj_p count) {
                     m = l - start;
             }
             res = vector(TYPE_LIST, m);
-            size = m;
+            size = n;
 
             if (is_range) {
                 for (i = 0; i < m; i++) {
                     j = start + i;
-                    if (AS_I64(s)[j] >= (i64_t)n) {
+                    if (AS_I64(s)[j] < (i64_t)n) {
                         buf = AS_U8(k) + AS_I64(s)[j];
                         v = de_raw(buf, &size);
                         if (IS_ERR(v)) {
@@ -708,7 +719,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    if (AS_I64(s)[j % l] >= (i64_t)n) {
+                    if (AS_I64(s)[j % l] < (i64_t)n) {
                         buf = AS_U8(k) + AS_I64(s)[j % l];
                         v = de_raw(buf, &size);
                         if (IS_ERR(v)) {
-- 
2.43.0


From 5dcaab620367d0ec1537ea81df8a987da42a14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 50/98] fix: literals out of range or without digits are
 refused, tab ends a quoted symbol, '\"' is a character

---
 core/parse.c  | 24 +++++++++++++++++++-----
 core/string.c |  2 +-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/core/parse.c b/core/parse.c
index 4174519..8fbb51d 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -103,7 +103,7 @@ b8_t before_eof(parser_t *parser) {
 }
 
 b8_t at_term(c8_t c) {
-    return c == ')' || c == ']' || c == '}' || c == ':' || c == ' ' || c == '\r' || c == '\n' || c == '\0';
+    return c == ')' || c == ']' || c == '}' || c == ':' || c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\0';
 }
 
 b8_t is_at(obj_p token, c8_t c) { return token && token->type == TYPE_TOKEN && token->c8 == c; }
@@ -449,7 +449,7 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
 
     switch (*current++) {
         case 'x':
-            if (num->i64 > 255) {
+            if (num->i64 < 0 || num->i64 > 255) {
                 drop_obj(num);
                 span.end_column += (current - parser->current);
                 nfo_insert(parser->nfo, parser->count, span);
@@ -479,10 +479,15 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
             num->type = -TYPE_I32;
             break;
         case 'd':
-            num->type = -TYPE_DATE;
-            break;
         case 't':
-            num->type = -TYPE_TIME;
+            if (num->i64 < -2147483647 || num->i64 > 2147483647) {
+                drop_obj(num);
+                span.end_column += (current - parser->current);
+                nfo_insert(parser->nfo, parser->count, span);
+                return parse_error(parser, parser->count++, EC_DOMAIN);
+            }
+            num->i32 = (i32_t)num->i64;
+            num->type = (*(current - 1) == 'd') ? -TYPE_DATE : -TYPE_TIME;
             break;
         case 'f':
             res = cast_obj(-TYPE_F64, num);
@@ -516,6 +521,11 @@ obj_p parse_number(parser_t *parser) {
 
     if (remaining >= 2 && *parser->current == '0' && (*(parser->current + 1) == 'x')) {
         r = u8_from_str(parser->current + 2, remaining - 2, &num_u8);
+        if (r == 0) {
+            span.end_column += 1;
+            nfo_insert(parser->nfo, parser->count, span);
+            return parse_error(parser, parser->count++, EC_DOMAIN);
+        }
         shift(parser, r + 2);
         span_extend(parser, &span);
         num = u8(num_u8);
@@ -582,6 +592,10 @@ obj_p parse_char(parser_t *parser) {
                 ch = '\'';
                 pos++;
                 break;
+            case '"':
+                ch = '"';
+                pos++;
+                break;
             case '0':
             case '1':
             case '2':
diff --git a/core/string.c b/core/string.c
index ad5895b..3b54820 100644
--- a/core/string.c
+++ b/core/string.c
@@ -256,7 +256,7 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
     while (n < len && IS_DIGIT(src[n])) {
         old = result;
         result = result * 10 + (src[n] - '0');
-        if (result < old)  // Overflow
+        if (old > 922337203685477580ull || result > 9223372036854775807ull)  // Overflow
             return 0;
         n++;
     }
-- 
2.43.0


From 2ef8d918eafa9f1a7b071ebfc5bca69035bf7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 51/98] fix: casts between numeric and temporal types keep
 nulls null

---
 core/ops.h      |  1 +
 core/rayforce.c | 66 ++++++++++++++++++++++++-------------------------
 2 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/core/ops.h b/core/ops.h
index 50cd145..4b9cb55 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -252,6 +252,7 @@ static inline f64_t i64_to_f64(i64_t x) { return (x == NULL_I64) ? NULL_F64 : (f
 static inline i32_t i64_to_date(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)x; }
 static inline i32_t i64_to_time(i64_t x) { return (x == NULL_I64) ? NULL_I32 : (i32_t)x; }
 static inline i64_t i64_to_timestamp(i64_t x) { return x; }
+static inline i16_t f64_to_i16(f64_t x) { return ISNANF64(x) ? NULL_I16 : (i16_t)x; }
 static inline i32_t f64_to_i32(f64_t x) { return ISNANF64(x) ? NULL_I32 : (i32_t)x; }
 static inline i64_t f64_to_i64(f64_t x) { return ISNANF64(x) ? NULL_I64 : (i64_t)x; }
 static inline f64_t f64_to_f64(f64_t x) { return x; }
diff --git a/core/rayforce.c b/core/rayforce.c
index 8abbb53..6d9568e 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2492,12 +2492,12 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I16, -TYPE_I32):
         case MTYPE2(-TYPE_I16, -TYPE_DATE):
         case MTYPE2(-TYPE_I16, -TYPE_TIME):
-            return i16(obj->i32);
+            return i16(i32_to_i16(obj->i32));
         case MTYPE2(-TYPE_I16, -TYPE_I64):
         case MTYPE2(-TYPE_I16, -TYPE_TIMESTAMP):
-            return i16(obj->i64);
+            return i16(i64_to_i16(obj->i64));
         case MTYPE2(-TYPE_I16, -TYPE_F64):
-            return i16((i16_t)obj->f64);
+            return i16(f64_to_i16(obj->f64));
 
         // I32 atom conversions
         case MTYPE2(-TYPE_I32, -TYPE_B8):
@@ -2505,15 +2505,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I32, -TYPE_U8):
             return i32(obj->u8);
         case MTYPE2(-TYPE_I32, -TYPE_I16):
-            return i32(obj->i16);
+            return i32(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_I32, -TYPE_I64):
         case MTYPE2(-TYPE_I32, -TYPE_TIMESTAMP):
-            return i32(obj->i64);
+            return i32(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_I32, -TYPE_TIME):
         case MTYPE2(-TYPE_I32, -TYPE_DATE):
             return i32(obj->i32);
         case MTYPE2(-TYPE_I32, -TYPE_F64):
-            return i32((i32_t)obj->f64);
+            return i32(f64_to_i32(obj->f64));
 
         // I64 atom conversions
         case MTYPE2(-TYPE_I64, -TYPE_B8):
@@ -2521,15 +2521,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I64, -TYPE_U8):
             return i64(obj->u8);
         case MTYPE2(-TYPE_I64, -TYPE_I16):
-            return i64(obj->i16);
+            return i64(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_I64, -TYPE_I32):
         case MTYPE2(-TYPE_I64, -TYPE_TIME):
         case MTYPE2(-TYPE_I64, -TYPE_DATE):
-            return i64(obj->i32);
+            return i64(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_I64, -TYPE_TIMESTAMP):
             return i64(obj->i64);
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return i64((i64_t)obj->f64);
+            return i64(f64_to_i64(obj->f64));
 
         // F64 atom conversions
         case MTYPE2(-TYPE_F64, -TYPE_B8):
@@ -2537,14 +2537,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_F64, -TYPE_U8):
             return f64((f64_t)obj->u8);
         case MTYPE2(-TYPE_F64, -TYPE_I16):
-            return f64((f64_t)obj->i16);
+            return f64(i16_to_f64(obj->i16));
         case MTYPE2(-TYPE_F64, -TYPE_I32):
         case MTYPE2(-TYPE_F64, -TYPE_DATE):
         case MTYPE2(-TYPE_F64, -TYPE_TIME):
-            return f64((f64_t)obj->i32);
+            return f64(i32_to_f64(obj->i32));
         case MTYPE2(-TYPE_F64, -TYPE_I64):
         case MTYPE2(-TYPE_F64, -TYPE_TIMESTAMP):
-            return f64((f64_t)obj->i64);
+            return f64(i64_to_f64(obj->i64));
 
         // DATE atom conversions
         case MTYPE2(-TYPE_DATE, -TYPE_B8):
@@ -2552,15 +2552,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_DATE, -TYPE_U8):
             return adate(obj->u8);
         case MTYPE2(-TYPE_DATE, -TYPE_I16):
-            return adate(obj->i16);
+            return adate(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_DATE, -TYPE_I32):
         case MTYPE2(-TYPE_DATE, -TYPE_TIME):
             return adate(obj->i32);
         case MTYPE2(-TYPE_DATE, -TYPE_I64):
         case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):
-            return adate((i32_t)obj->i64);
+            return adate(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_DATE, -TYPE_F64):
-            return adate((i32_t)obj->f64);
+            return adate(f64_to_i32(obj->f64));
 
         // TIME atom conversions
         case MTYPE2(-TYPE_TIME, -TYPE_B8):
@@ -2568,15 +2568,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIME, -TYPE_U8):
             return atime(obj->u8);
         case MTYPE2(-TYPE_TIME, -TYPE_I16):
-            return atime(obj->i16);
+            return atime(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
         case MTYPE2(-TYPE_TIME, -TYPE_DATE):
             return atime(obj->i32);
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
         case MTYPE2(-TYPE_TIME, -TYPE_TIMESTAMP):
-            return atime((i32_t)obj->i64);
+            return atime(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
-            return atime((i32_t)obj->f64);
+            return atime(f64_to_i32(obj->f64));
 
         // TIMESTAMP atom conversions
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_B8):
@@ -2584,15 +2584,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_U8):
             return timestamp((i64_t)obj->u8);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I16):
-            return timestamp((i64_t)obj->i16);
+            return timestamp(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I32):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp((i64_t)obj->i32);
+            return timestamp(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(obj->i64);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_F64):
-            return timestamp((i64_t)obj->f64);
+            return timestamp(f64_to_i64(obj->f64));
 
         // SYMBOL atom conversions
         case MTYPE2(-TYPE_SYMBOL, -TYPE_B8):
@@ -2718,20 +2718,20 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I32(obj)[i];
+                AS_I16(res)[i] = i32_to_i16(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_I64):
         case MTYPE2(TYPE_I16, TYPE_TIMESTAMP):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I64(obj)[i];
+                AS_I16(res)[i] = i64_to_i16(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_F64):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_F64(obj)[i];
+                AS_I16(res)[i] = f64_to_i16(AS_F64(obj)[i]);
             return res;
 
         // I32/DATE/TIME vector conversions (all use i32 storage)
@@ -2752,7 +2752,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I16(obj)[i];
+                AS_I32(res)[i] = i16_to_i32(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_I64):
         case MTYPE2(TYPE_I32, TYPE_TIMESTAMP):
@@ -2763,7 +2763,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I64(obj)[i];
+                AS_I32(res)[i] = i64_to_i32(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_DATE):
         case MTYPE2(TYPE_I32, TYPE_TIME):
@@ -2782,7 +2782,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_F64(obj)[i];
+                AS_I32(res)[i] = f64_to_i32(AS_F64(obj)[i]);
             return res;
 
         // I64/TIMESTAMP vector conversions (all use i64 storage)
@@ -2800,7 +2800,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I16(obj)[i];
+                AS_I64(res)[i] = i16_to_i64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_I32):
         case MTYPE2(TYPE_I64, TYPE_DATE):
@@ -2811,14 +2811,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I32(obj)[i];
+                AS_I64(res)[i] = i32_to_i64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_F64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_F64):
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_F64(obj)[i];
+                AS_I64(res)[i] = f64_to_i64(AS_F64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_TIMESTAMP):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -2840,7 +2840,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I16(obj)[i];
+                AS_F64(res)[i] = i16_to_f64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I32):
         case MTYPE2(TYPE_F64, TYPE_DATE):
@@ -2848,14 +2848,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I32(obj)[i];
+                AS_F64(res)[i] = i32_to_f64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_TIMESTAMP):
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I64(obj)[i];
+                AS_F64(res)[i] = i64_to_f64(AS_I64(obj)[i]);
             return res;
 
         // SYMBOL vector conversion from I64
-- 
2.43.0


From 7cc06a772a4c2cd95b17dd692e7287332006991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 52/98] fix: grouped aggregates ignore nulls and accept the
 column types their plain forms accept; first and last take the end rows of a
 group

---
 core/aggr.c  | 437 ++++++++++++++++++++++++++++++---------------------
 core/items.c |   4 +-
 2 files changed, 263 insertions(+), 178 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index e876b48..a886b6e 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -391,6 +391,111 @@ nil_t destroy_partial_result(obj_p res) {
     drop_obj(res);
 }
 
+// Position of the first row of each group
+static obj_p aggr_first_pos_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5) {
+    i64_t len = (i64_t)arg1, offset = (i64_t)arg2;
+    obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
+
+    AGGR_ITER(
+        index, len, offset, val, res, u8, i64, $out[$y] = NULL_I64,
+        {
+            UNUSED($in);
+            if ($out[$y] == NULL_I64)
+                $out[$y] = $x;
+        },
+        $out[$y] = NULL_I64);
+    return res;
+}
+
+// Position of the last row of each group
+static obj_p aggr_last_pos_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5) {
+    i64_t len = (i64_t)arg1, offset = (i64_t)arg2;
+    obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
+
+    AGGR_ITER(
+        index, len, offset, val, res, u8, i64, $out[$y] = NULL_I64,
+        {
+            UNUSED($in);
+            $out[$y] = $x;
+        },
+        $out[$y] = NULL_I64);
+    return res;
+}
+
+// Elements of val at the given positions, one per group (null for a group without rows)
+static obj_p aggr_at_pos(obj_p val, obj_p pos) {
+    i64_t i, l;
+    i64_t *ids;
+    b8_t *none;
+    obj_p res, flags;
+
+    l = pos->len;
+    ids = AS_I64(pos);
+
+    for (i = 0; i < l && ids[i] != NULL_I64; i++)
+        ;
+
+    if (i == l)
+        return at_ids(val, ids, l);
+
+    if (val->len == 0) {
+        res = vector(val->type == TYPE_ENUM ? TYPE_SYMBOL : val->type, l);
+        memset(AS_U8(res), 0, l * size_of_type(res->type));
+    } else {
+        res = NULL_OBJ;
+    }
+
+    flags = B8(l);
+    none = AS_B8(flags);
+    for (i = 0; i < l; i++) {
+        none[i] = (ids[i] == NULL_I64);
+        if (none[i])
+            ids[i] = 0;
+    }
+
+    if (res == NULL_OBJ)
+        res = at_ids(val, ids, l);
+
+    if (!IS_ERR(res)) {
+        for (i = 0; i < l; i++) {
+            if (!none[i])
+                continue;
+            switch (res->type) {
+                case TYPE_I16:
+                    AS_I16(res)[i] = NULL_I16;
+                    break;
+                case TYPE_I32:
+                case TYPE_DATE:
+                case TYPE_TIME:
+                    AS_I32(res)[i] = NULL_I32;
+                    break;
+                case TYPE_I64:
+                case TYPE_SYMBOL:
+                case TYPE_TIMESTAMP:
+                    AS_I64(res)[i] = NULL_I64;
+                    break;
+                case TYPE_F64:
+                    AS_F64(res)[i] = NULL_F64;
+                    break;
+                case TYPE_GUID:
+                    memset(AS_GUID(res)[i], 0, sizeof(guid_t));
+                    break;
+                case TYPE_LIST:
+                    drop_obj(AS_LIST(res)[i]);
+                    AS_LIST(res)[i] = NULL_OBJ;
+                    break;
+                default:
+                    AS_U8(res)[i] = 0;
+                    break;
+            }
+        }
+    }
+
+    drop_obj(flags);
+
+    return res;
+}
+
 obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5) {
     i64_t len = (i64_t)arg1, offset = (i64_t)arg2;
     obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
@@ -441,7 +546,7 @@ obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
 obj_p aggr_first(obj_p val, obj_p index) {
     i64_t i, j, n, l;
     i64_t *xo, *xe, *first_ids, *filter_ids;
-    obj_p parts, res, ek, filter, sym;
+    obj_p parts, pos, res, ek, filter, sym;
 
     n = index_group_count(index);
 
@@ -581,96 +686,25 @@ obj_p aggr_first(obj_p val, obj_p index) {
         case TYPE_U8:
         case TYPE_B8:
         case TYPE_C8:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, u8, u8, if ($out[$y] == 0) $out[$y] = $in[$x]);
-            res->type = val->type;
-            drop_obj(parts);
-            return res;
         case TYPE_I16:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
-            res->type = val->type;
-            drop_obj(parts);
-            return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, i32, i32, if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
-            res->type = val->type;
-            drop_obj(parts);
-            return res;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
-            res->type = val->type;
-            drop_obj(parts);
-
-            if (val->type == TYPE_ENUM) {
-                ek = ray_key(val);
-                sym = ray_get(ek);
-                drop_obj(ek);
-
-                if (IS_ERR(sym)) {
-                    drop_obj(res);
-                    return sym;
-                }
-
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {
-                    drop_obj(sym);
-                    drop_obj(res);
-                    return err_type(0, 0, 0, 0);
-                }
-
-                xe = AS_SYMBOL(sym);
-                xo = AS_SYMBOL(res);
-                for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
-
-                drop_obj(sym);
-                res->type = TYPE_SYMBOL;
-            }
-
-            return res;
         case TYPE_F64:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
-            drop_obj(parts);
-            return res;
         case TYPE_GUID:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, guid, guid,
-                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
-                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
-            drop_obj(parts);
-            return res;
         case TYPE_LIST:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
+            parts = aggr_map((raw_p)aggr_first_pos_partial, val, TYPE_I64, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, list, list, if ($out[$y] == NULL_OBJ) $out[$y] = clone_obj($in[$x]));
+            pos = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
             drop_obj(parts);
+            res = aggr_at_pos(val, pos);
+            drop_obj(pos);
             return res;
-        // TODO: implement anymap
-        // case TYPE_MAPLIST:
-        //     res = AGGR_COLLECT(parts, n, list, list, if ($out[$y] == NULL_OBJ) $out[$y] = clone_obj($in[$x]));
-        //     drop_obj(parts);
-        //     return res;
         case TYPE_PARTEDLIST:
             filter = index_group_filter(index);
             res = LIST(n);
@@ -896,86 +930,32 @@ obj_p aggr_last_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p ar
 
 obj_p aggr_last(obj_p val, obj_p index) {
     i64_t i, j, n, l;
-    i64_t *xo, *xe;
-    obj_p parts, res, ek, sym, filter;
+    obj_p parts, pos, res, filter;
 
     n = index_group_count(index);
 
     switch (val->type) {
+        case TYPE_U8:
+        case TYPE_B8:
+        case TYPE_C8:
         case TYPE_I16:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
-            res->type = val->type;
-            drop_obj(parts);
-            return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, i32, i32, if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
-            res->type = val->type;
-            drop_obj(parts);
-            return res;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
-            drop_obj(parts);
-            if (val->type == TYPE_ENUM) {
-                ek = ray_key(val);
-                sym = ray_get(ek);
-                drop_obj(ek);
-
-                if (IS_ERR(sym)) {
-                    drop_obj(res);
-                    return sym;
-                }
-
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {
-                    drop_obj(sym);
-                    drop_obj(res);
-                    return err_type(0, 0, 0, 0);
-                }
-
-                xe = AS_SYMBOL(sym);
-                xo = AS_I64(res);
-                for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
-
-                drop_obj(sym);
-            }
-
-            return res;
         case TYPE_F64:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
-            drop_obj(parts);
-            return res;
         case TYPE_GUID:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
-            if (IS_ERR(parts))
-                return parts;
-            res = AGGR_COLLECT(parts, n, guid, guid,
-                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
-                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
-            drop_obj(parts);
-            return res;
         case TYPE_LIST:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
+            parts = aggr_map((raw_p)aggr_last_pos_partial, val, TYPE_I64, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, list, list, if ($out[$y] == NULL_OBJ) $out[$y] = clone_obj($in[$x]));
+            pos = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
             drop_obj(parts);
+            res = aggr_at_pos(val, pos);
+            drop_obj(pos);
             return res;
         case TYPE_PARTEDLIST:
             filter = index_group_filter(index);
@@ -1081,21 +1061,21 @@ obj_p aggr_sum_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 
     switch (val->type) {
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = 0, $out[$y] = ADDI16($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = 0, $out[$y] = FOLD_ADDI16($out[$y], $in[$x]),
                       $out[$y] = NULL_I16);
             return res;
         case TYPE_I64:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = ADDI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = ADDF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = ADDI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
@@ -1111,39 +1091,48 @@ obj_p aggr_sum(obj_p val, obj_p index) {
     n = index_group_count(index);
 
     switch (val->type) {
+        case TYPE_U8:
         case TYPE_I16:
+            // Narrow integers are summed as I64, the same way plain sum does
+            parts = cast_obj(TYPE_I64, val);
+            if (IS_ERR(parts))
+                return parts;
+            res = aggr_sum(parts, index);
+            drop_obj(parts);
+            return res;
+        case TYPE_I32:
+        case TYPE_TIME:
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, $out[$y] = ADDI16($out[$y], $in[$x]));
-            res->type = val->type;
+            res = AGGR_COLLECT(parts, n, i32, i32, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_I64:
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = ADDI64($out[$y], $in[$x]));
+            res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_F64:
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = ADDF64($out[$y], $in[$x]));
+            res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = ADDI64($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
         case TYPE_PARTEDF64:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, f64, f64, $out[$y] = ADDF64($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, f64, f64, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i32, i32, $out[$y] = ADDI32($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i32, i32, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]));
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i16, i16, $out[$y] = ADDI16($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i16, i16, $out[$y] = FOLD_ADDI16($out[$y], $in[$x]));
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1154,6 +1143,10 @@ obj_p aggr_max_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
     obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
 
     switch (val->type) {
+        case TYPE_U8:
+            AGGR_ITER(index, len, offset, val, res, u8, u8, $out[$y] = 0, $out[$y] = MAXU8($out[$y], $in[$x]),
+                      $out[$y] = 0);
+            return res;
         case TYPE_I16:
             AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = NULL_I16, $out[$y] = MAXI16($out[$y], $in[$x]),
                       $out[$y] = NULL_I16);
@@ -1167,6 +1160,7 @@ obj_p aggr_max_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
             AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64, $out[$y] = MAXF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = NULL_I32, $out[$y] = MAXI32($out[$y], $in[$x]),
@@ -1185,6 +1179,13 @@ obj_p aggr_max(obj_p val, obj_p index) {
     n = index_group_count(index);
 
     switch (val->type) {
+        case TYPE_U8:
+            parts = aggr_map((raw_p)aggr_max_partial, val, val->type, index);
+            if (IS_ERR(parts))
+                return parts;
+            res = AGGR_COLLECT(parts, n, u8, u8, $out[$y] = MAXU8($out[$y], $in[$x]));
+            drop_obj(parts);
+            return res;
         case TYPE_I16:
             parts = aggr_map((raw_p)aggr_max_partial, val, val->type, index);
             if (IS_ERR(parts))
@@ -1208,6 +1209,7 @@ obj_p aggr_max(obj_p val, obj_p index) {
             res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = MAXF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             parts = aggr_map((raw_p)aggr_max_partial, val, val->type, index);
@@ -1237,25 +1239,31 @@ obj_p aggr_min_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
     obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
 
     switch (val->type) {
+        case TYPE_U8:
+            AGGR_ITER(index, len, offset, val, res, u8, u8, $out[$y] = 255, $out[$y] = MINU8($out[$y], $in[$x]),
+                      $out[$y] = 0);
+            return res;
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = INF_I16, $out[$y] = MINI16($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = NULL_I16, $out[$y] = MINI16($out[$y], $in[$x]),
                       $out[$y] = NULL_I16);
             return res;
         case TYPE_I64:
         case TYPE_TIMESTAMP:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = INF_I64, $out[$y] = MINI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = NULL_I64, $out[$y] = MINI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = INF_F64, $out[$y] = MINF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64, $out[$y] = MINF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = INF_I32, $out[$y] = MINI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = NULL_I32, $out[$y] = MINI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
+            destroy_partial_result(res);
             return err_type(0, 0, 0, 0);
     }
 }
@@ -1267,6 +1275,13 @@ obj_p aggr_min(obj_p val, obj_p index) {
     n = index_group_count(index);
 
     switch (val->type) {
+        case TYPE_U8:
+            parts = aggr_map((raw_p)aggr_min_partial, val, val->type, index);
+            if (IS_ERR(parts))
+                return parts;
+            res = AGGR_COLLECT(parts, n, u8, u8, $out[$y] = MINU8($out[$y], $in[$x]));
+            drop_obj(parts);
+            return res;
         case TYPE_I16:
             parts = aggr_map((raw_p)aggr_min_partial, val, val->type, index);
             if (IS_ERR(parts))
@@ -1290,6 +1305,7 @@ obj_p aggr_min(obj_p val, obj_p index) {
             res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = MINF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             parts = aggr_map((raw_p)aggr_min_partial, val, val->type, index);
@@ -1319,6 +1335,26 @@ obj_p aggr_count_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
     obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
     UNUSED(val);
     switch (val->type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+            AGGR_ITER(
+                index, len, offset, val, res, u8, i64, $out[$y] = 0,
+                {
+                    UNUSED($in);
+                    $out[$y]++;
+                },
+                $out[$y] = 0);
+            return res;
+        case TYPE_I16:
+            AGGR_ITER(
+                index, len, offset, val, res, i16, i64, $out[$y] = 0,
+                {
+                    UNUSED($in);
+                    $out[$y]++;
+                },
+                $out[$y] = 0);
+            return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -1333,6 +1369,7 @@ obj_p aggr_count_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
+        case TYPE_ENUM:
             AGGR_ITER(
                 index, len, offset, val, res, i64, i64, $out[$y] = 0,
                 {
@@ -2019,6 +2056,13 @@ obj_p aggr_avg(obj_p val, obj_p index) {
     n = index_group_count(index);
 
     switch (val->type) {
+        case TYPE_U8:
+            part = cast_obj(TYPE_I64, val);
+            if (IS_ERR(part))
+                return part;
+            res = aggr_avg(part, index);
+            drop_obj(part);
+            return res;
         case TYPE_I16:
         case TYPE_I32:
         case TYPE_I64:
@@ -2138,13 +2182,25 @@ obj_p aggr_med_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
     obj_p collected = (obj_p)arg3, res = (obj_p)arg5;
     UNUSED(arg4);
 
-    i64_t i, l;
-    i64_t *xisort;
-    f64_t *xfsort;
-    f64_t med;
+    i64_t i, l, n, mid;
     f64_t *fo = AS_F64(res);
     obj_p grp, sorted;
 
+// nulls are sorted first and do not take part
+#define MED_SORTED(As, IsNull)                                                       \
+    ({                                                                               \
+        for (n = 0; n < l && IsNull(As(sorted)[n]); n++)                             \
+            ;                                                                        \
+        mid = n + (l - n) / 2;                                                       \
+        (n == l) ? NULL_F64                                                          \
+        : ((l - n) % 2 == 0) ? ((f64_t)As(sorted)[mid - 1] + (f64_t)As(sorted)[mid]) / 2.0 \
+                             : (f64_t)As(sorted)[mid];                               \
+    })
+#define MED_NULL_U8(x) (UNUSED(x), B8_FALSE)
+#define MED_NULL_I16(x) ((x) == NULL_I16)
+#define MED_NULL_I32(x) ((x) == NULL_I32)
+#define MED_NULL_I64(x) ((x) == NULL_I64)
+
     for (i = offset; i < offset + len; i++) {
         grp = AS_LIST(collected)[i];
         l = grp->len;
@@ -2155,37 +2211,44 @@ obj_p aggr_med_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
         }
 
         switch (grp->type) {
+            case TYPE_U8:
+                sorted = ray_asc(grp);
+                fo[i] = MED_SORTED(AS_U8, MED_NULL_U8);
+                drop_obj(sorted);
+                break;
+            case TYPE_I16:
+                sorted = ray_asc(grp);
+                fo[i] = MED_SORTED(AS_I16, MED_NULL_I16);
+                drop_obj(sorted);
+                break;
+            case TYPE_I32:
+                sorted = ray_asc(grp);
+                fo[i] = MED_SORTED(AS_I32, MED_NULL_I32);
+                drop_obj(sorted);
+                break;
             case TYPE_I64:
-            case TYPE_TIMESTAMP: {
-                i64_t mid = l / 2;
+            case TYPE_TIMESTAMP:
                 sorted = ray_asc(grp);
-                xisort = AS_I64(sorted);
-                if (l % 2 == 0)
-                    med = ((f64_t)xisort[mid - 1] + (f64_t)xisort[mid]) / 2.0;
-                else
-                    med = (f64_t)xisort[mid];
+                fo[i] = MED_SORTED(AS_I64, MED_NULL_I64);
                 drop_obj(sorted);
-                fo[i] = med;
                 break;
-            }
-            case TYPE_F64: {
-                i64_t mid = l / 2;
+            case TYPE_F64:
                 sorted = ray_asc(grp);
-                xfsort = AS_F64(sorted);
-                if (l % 2 == 0)
-                    med = (xfsort[mid - 1] + xfsort[mid]) / 2.0;
-                else
-                    med = xfsort[mid];
+                fo[i] = MED_SORTED(AS_F64, ISNANF64);
                 drop_obj(sorted);
-                fo[i] = med;
                 break;
-            }
             default:
                 fo[i] = NULL_F64;
                 break;
         }
     }
 
+#undef MED_SORTED
+#undef MED_NULL_U8
+#undef MED_NULL_I16
+#undef MED_NULL_I32
+#undef MED_NULL_I64
+
     return res;
 }
 
@@ -2233,6 +2296,20 @@ static obj_p aggr_map_med(obj_p collected, obj_p index) {
 obj_p aggr_med(obj_p val, obj_p index) {
     obj_p collected, res;
 
+    switch (val->type) {
+        case TYPE_B8:
+        case TYPE_C8:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_SYMBOL:
+        case TYPE_ENUM:
+        case TYPE_GUID:
+        case TYPE_LIST:
+            return err_type(0, 0, 0, 0);
+        default:
+            break;
+    }
+
     // Collect values into groups first (this is parallelized via aggr_collect)
     collected = aggr_collect(val, index);
     if (IS_ERR(collected))
@@ -2871,6 +2948,13 @@ obj_p aggr_dev(obj_p val, obj_p index) {
     n = index_group_count(index);
 
     switch (val->type) {
+        case TYPE_U8:
+            part = cast_obj(TYPE_I64, val);
+            if (IS_ERR(part))
+                return part;
+            res = aggr_dev(part, index);
+            drop_obj(part);
+            return res;
         case TYPE_I16:
         case TYPE_I32:
         case TYPE_I64:
@@ -3031,6 +3115,7 @@ obj_p aggr_collect(obj_p val, obj_p index) {
 
     switch (val->type) {
         case TYPE_B8:
+        case TYPE_C8:
             AGGR_ITER(index, l, 0, val, res, b8, list, , push_raw($out + $y, $in + $x), );
             return res;
         case TYPE_U8:
diff --git a/core/items.c b/core/items.c
index bcbab82..29f02cc 100644
--- a/core/items.c
+++ b/core/items.c
@@ -95,10 +95,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = B8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_B8(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_B8(res)[i] = B8_FALSE;
                 else
-                    AS_B8(res)[i] = AS_B8(x)[(i32_t)AS_B8(y)[i]];
+                    AS_B8(res)[i] = AS_B8(x)[AS_I64(y)[i]];
             }
 
             return res;
-- 
2.43.0


From c6b475926d1c6fd23016ac83c439dec79b517ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 53/98] fix: grouping by several keys under a filter names the
 filtered rows; medians and windows over no groups

---
 core/aggr.c  |  8 ++++----
 core/index.c | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index a886b6e..3562157 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -341,6 +341,9 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     n = pool_get_executors_count(pool);
     res = vector(outype, out_len);
 
+    if (n > group_count)
+        n = (group_count > 0) ? group_count : 1;
+
     if (n == 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
@@ -351,9 +354,6 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
@@ -2262,7 +2262,7 @@ static obj_p aggr_map_med(obj_p collected, obj_p index) {
     l = pool_get_executors_count(pool);
 
     if (l > n)
-        l = n;
+        l = (n > 0) ? n : 1;
 
     res = F64(n);
 
diff --git a/core/index.c b/core/index.c
index 6f95218..79bff8b 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2434,6 +2434,27 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     heap_free(scopes);
     res = index_group_i64_scoped(ht, NULL_OBJ, scope);
+
+    // Combined keys are numbered by their position in the filter: spell out the group of each filtered row
+    if (indices != NULL && !IS_ERR(res)) {
+        i64_t *ids = index_group_ids(res);
+
+        v = I64(len);
+        if (index_group_type(res) == INDEX_TYPE_SHIFT) {
+            i64_t *source = index_group_source(res);
+            i64_t shift = index_group_shift(res);
+            for (i = 0; i < len; i++)
+                AS_I64(v)[i] = ids[source[i] - shift];
+        } else {
+            memcpy(AS_I64(v), ids, len * sizeof(i64_t));
+        }
+
+        v = index_group_build(INDEX_TYPE_IDS, index_group_count(res), v, i64(NULL_I64), NULL_OBJ, clone_obj(filter),
+                              clone_obj(AS_LIST(res)[6]));
+        drop_obj(res);
+        res = v;
+    }
+
     drop_obj(ht);
 
     return res;
-- 
2.43.0


From 634f6749a4900991e23240471a736690fa529002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 54/98] fix: aggregates and roundings of filtered columns,
 tables and dictionaries do not split them into chunks

---
 core/math.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/math.c b/core/math.c
index 6c1ddab..da52006 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2230,7 +2230,7 @@ obj_p unop_fold(raw_p op, obj_p x) {
     l = ops_count(x);
 
     pool = runtime_get()->pool;
-    n = pool_split_by(pool, l, 0);
+    n = (x->type > TYPE_C8) ? 1 : pool_split_by(pool, l, 0);
 
     if (n == 1)
         return ((obj_p(*)(obj_p, i64_t, i64_t))op)(x, l, 0);
@@ -2273,6 +2273,10 @@ obj_p unop_map(raw_p op, obj_p x) {
         return unop(x);
     }
 
+    // Only plain vectors and lists can be split into chunks
+    if (x->type > TYPE_C8)
+        return err_type(TYPE_LIST, x->type, 0, 0);
+
     l = ops_count(x);
 
     pool = runtime_get()->pool;
@@ -2431,7 +2435,7 @@ obj_p ray_cnt(obj_p x) {
 
     l = ops_count(x);
     pool = runtime_get()->pool;
-    n = pool_split_by(pool, l, 0);
+    n = (x->type > TYPE_C8) ? 1 : pool_split_by(pool, l, 0);
 
     if (n == 1)
         return ray_cnt_partial(x, l, 0);
@@ -2575,8 +2579,8 @@ obj_p ray_avg(obj_p x) {
 
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    obj_p cnt_obj = ray_cnt(x);
-    i64_t l = IS_ERR(cnt_obj) ? -1 : cnt_obj->i64;
+    obj_p cnt_obj = (x->type == TYPE_MAPGROUP || x->type == TYPE_MAPFILTER) ? NULL_OBJ : ray_cnt(x);
+    i64_t l = (cnt_obj->type != -TYPE_I64) ? -1 : cnt_obj->i64;
     drop_obj(cnt_obj);
 
     if (l == 0)
@@ -2677,8 +2681,8 @@ obj_p ray_med(obj_p x) {
 }
 
 obj_p ray_dev(obj_p x) {
-    obj_p cnt_obj = ray_cnt(x);
-    i64_t l = IS_ERR(cnt_obj) ? -1 : cnt_obj->i64;
+    obj_p cnt_obj = (x->type == TYPE_MAPGROUP || x->type == TYPE_MAPFILTER) ? NULL_OBJ : ray_cnt(x);
+    i64_t l = (cnt_obj->type != -TYPE_I64) ? -1 : cnt_obj->i64;
     drop_obj(cnt_obj);
 
     if (l == 0)
-- 
2.43.0


From 4ad55a241b3f0afca48dcc1ccdc1ce01b098d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 55/98] fix: a refused filtered or grouped update leaves the
 table as it was, and new columns take dictionaries

---
 core/rayforce.c |  1 +
 core/update.c   | 33 +++++++++++++++++++--------------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 6d9568e..b0cf460 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1555,6 +1555,7 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 AS_C8(*obj)[ids[i]] = AS_C8(vals)[i];
             drop_obj(vals);
             return *obj;
+        case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_U8, TYPE_U8):
             for (i = 0; i < len; i++)
                 AS_U8(*obj)[ids[i]] = AS_U8(vals)[i];
diff --git a/core/update.c b/core/update.c
index 008117b..846e9b3 100644
--- a/core/update.c
+++ b/core/update.c
@@ -230,7 +230,8 @@ static obj_p __own_column(obj_p tab, i64_t name, i8_t type) {
 
     j = find_raw(AS_LIST(tab)[0], &name);
     if (j == NULL_I64) {
-        push_obj(AS_LIST(tab) + 1, nullv(type, ops_count(tab)));
+        // dictionaries, tables and functions are kept in a list
+        push_obj(AS_LIST(tab) + 1, nullv((type > TYPE_C8) ? TYPE_LIST : type, ops_count(tab)));
         push_raw(AS_LIST(tab), &name);
         return NULL_OBJ;
     }
@@ -784,7 +785,7 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p ind
     i64_t i, l, m, n;
     i64_t j, *ids;
     i8_t t = TYPE_LIST;
-    obj_p prm, obj, *val = NULL, gids, v, res, original;
+    obj_p prm, obj, *val = NULL, gids, types, v, res, original;
 
     // No filters nor groupings
     if (filters == NULL_OBJ && index == NULL_OBJ) {
@@ -812,6 +813,7 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p ind
         gids = aggr_row(vals, index);
         drop_obj(index);
         n = gids->len;
+        types = U8(l);
 
         // Check each column: every group takes either one value or as many as it has rows
         res = NULL_OBJ;
@@ -840,10 +842,14 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p ind
                 drop_obj(v);
             }
 
-            if (!IS_ERR(res))
-                res = __own_column(obj, AS_I64(keys)[i], (n > 0) ? t : AS_LIST(vals)[i]->type);
+            AS_U8(types)[i] = (u8_t)((n > 0) ? t : AS_LIST(vals)[i]->type);
         }
 
+        for (i = 0; i < l && !IS_ERR(res); i++)
+            res = __own_column(obj, AS_I64(keys)[i], (i8_t)AS_U8(types)[i]);
+
+        drop_obj(types);
+
         if (IS_ERR(res)) {
             drop_obj(tab);
             drop_obj(keys);
@@ -903,19 +909,18 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p ind
                      !(v->type == TYPE_C8 && (j == NULL_I64 || AS_LIST(AS_LIST(obj)[1])[j]->type == TYPE_LIST)) &&
                      ops_count(v) != filters->len && ops_count(v) != ops_count(obj))
                 res = err_length(filters->len, ops_count(v), 0, 0, 0, 0);
-            else {
-                if (IS_VECTOR(v) && v->type != TYPE_C8 && ops_count(v) != filters->len) {
-                    // take the first ones
-                    prm = i64(filters->len);
-                    AS_LIST(vals)[i] = ray_take(v, prm);
-                    drop_obj(prm);
-                    drop_obj(v);
-                    v = AS_LIST(vals)[i];
-                }
-                res = __own_column(obj, AS_I64(keys)[i], v->type);
+            else if (IS_VECTOR(v) && v->type != TYPE_C8 && ops_count(v) != filters->len) {
+                // take the first ones
+                prm = i64(filters->len);
+                AS_LIST(vals)[i] = ray_take(v, prm);
+                drop_obj(prm);
+                drop_obj(v);
             }
         }
 
+        for (i = 0; i < l && !IS_ERR(res); i++)
+            res = __own_column(obj, AS_I64(keys)[i], AS_LIST(vals)[i]->type);
+
         if (IS_ERR(res)) {
             drop_obj(tab);
             drop_obj(keys);
-- 
2.43.0


From ed1b1d19275d2799e3d1033539d79e3fcede9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 56/98] fix: boolean and symbol vectors made by casts hold
 proper values, text that spells no value casts to null

---
 core/date.c      |  3 +++
 core/rayforce.c  | 28 ++++++++++++----------------
 core/string.c    | 13 ++++++++++---
 core/timestamp.c |  4 ++--
 4 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/core/date.c b/core/date.c
index 5371770..5d20ab0 100644
--- a/core/date.c
+++ b/core/date.c
@@ -125,6 +125,9 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 i32_t date_into_i32(datestruct_t dt) {
     i64_t leap, mdays, yy, mm, dd, ydays;
 
+    if (dt.null)
+        return NULL_I32;
+
     yy = (dt.year > 0) ? dt.year - 1 : 0;
     ydays = years_by_days(yy);
     leap = leap_year(dt.year);
diff --git a/core/rayforce.c b/core/rayforce.c
index b0cf460..45e2308 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -24,6 +24,7 @@
 #include "rayforce.h"
 #include <stdio.h>
 #include "error.h"
+#include "compose.h"
 #include "eval.h"
 #include "format.h"
 #include "heap.h"
@@ -2641,17 +2642,13 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_B8, TYPE_C8):
             return b8(obj->len > 0);
         case MTYPE2(-TYPE_U8, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
-            return u8((u8_t)num_i32);
+            return u8(i32_from_str(AS_C8(obj), obj->len, &num_i32) ? (u8_t)num_i32 : 0);
         case MTYPE2(-TYPE_I16, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
-            return i16((i16_t)num_i32);
+            return i16(i32_from_str(AS_C8(obj), obj->len, &num_i32) ? (i16_t)num_i32 : NULL_I16);
         case MTYPE2(-TYPE_I32, TYPE_C8):
-            i32_from_str(AS_C8(obj), obj->len, &num_i32);
-            return i32(num_i32);
+            return i32(i32_from_str(AS_C8(obj), obj->len, &num_i32) ? num_i32 : NULL_I32);
         case MTYPE2(-TYPE_I64, TYPE_C8):
-            i64_from_str(AS_C8(obj), obj->len, &num_i64);
-            return i64(num_i64);
+            return i64(i64_from_str(AS_C8(obj), obj->len, &num_i64) ? num_i64 : NULL_I64);
         case MTYPE2(-TYPE_DATE, TYPE_C8):
             return adate(date_into_i32(date_from_str(AS_C8(obj), obj->len)));
         case MTYPE2(-TYPE_TIME, TYPE_C8):
@@ -2659,10 +2656,9 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_C8):
             return timestamp(timestamp_into_i64(timestamp_from_str(AS_C8(obj), obj->len)));
         case MTYPE2(-TYPE_F64, TYPE_C8):
-            f64_from_str(AS_C8(obj), obj->len, &num_f64);
-            return f64(num_f64);
+            return f64(f64_from_str(AS_C8(obj), obj->len, &num_f64) ? num_f64 : NULL_F64);
         case MTYPE2(TYPE_TABLE, TYPE_DICT):
-            return table(clone_obj(AS_LIST(obj)[0]), clone_obj(AS_LIST(obj)[1]));
+            return ray_table(AS_LIST(obj)[0], AS_LIST(obj)[1]);
         case MTYPE2(TYPE_DICT, TYPE_TABLE):
             return dict(clone_obj(AS_LIST(obj)[0]), clone_obj(AS_LIST(obj)[1]));
         // B8/U8 vector conversions
@@ -2672,7 +2668,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I16(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? (AS_I16(obj)[i] != 0) : (u8_t)AS_I16(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I32):
         case MTYPE2(TYPE_B8, TYPE_DATE):
@@ -2684,7 +2680,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I32(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? (AS_I32(obj)[i] != 0) : (u8_t)AS_I32(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I64):
         case MTYPE2(TYPE_B8, TYPE_TIMESTAMP):
@@ -2694,7 +2690,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? (AS_I64(obj)[i] != 0) : (u8_t)AS_I64(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_F64):
         case MTYPE2(TYPE_U8, TYPE_F64):
@@ -2702,7 +2698,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_F64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? (AS_F64(obj)[i] != 0) : (u8_t)AS_F64(obj)[i];
             return res;
 
         // I16 vector conversions
@@ -2866,7 +2862,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             for (i = 0; i < l; i++) {
                 obj_p sym;
                 v = str_fmt(-1, "%lld", AS_I64(obj)[i]);
-                sym = symbol(AS_C8(v), v->len);
+                sym = symbol(AS_C8(v), strlen(AS_C8(v)));
                 AS_I64(res)[i] = sym->i64;
                 drop_obj(sym);
                 drop_obj(v);
diff --git a/core/string.c b/core/string.c
index 3b54820..cace03a 100644
--- a/core/string.c
+++ b/core/string.c
@@ -323,8 +323,12 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
     if (i < len && str[i] == '.') {
         i++;
         while (i < len && IS_DIGIT(str[i])) {
-            frac_part = frac_part * 10 + (str[i++] - '0');
-            frac_digits++;
+            // digits that far do not matter
+            if (frac_digits < 300) {
+                frac_part = frac_part * 10 + (str[i] - '0');
+                frac_digits++;
+            }
+            i++;
         }
     }
 
@@ -353,7 +357,10 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
         exp_start = i;
 
         while (i < len && IS_DIGIT(str[i])) {
-            exp = exp * 10 + (str[i++] - '0');
+            // zero or infinity from some point on
+            if (exp < 10000)
+                exp = exp * 10 + (str[i] - '0');
+            i++;
         }
         if (i > exp_start) {
             multiplier = 1.0;
diff --git a/core/timestamp.c b/core/timestamp.c
index 6088640..f0abaca 100644
--- a/core/timestamp.c
+++ b/core/timestamp.c
@@ -472,7 +472,7 @@ timestamp_t timestamp_current(lit_p tz) {
     nanos = (uli.QuadPart % 10000000LL) * 100;  // Convert to nanoseconds
 
     // Determine if UTC or local time should be used
-    if (tz && strcmp(tz, "utc") == 0) {
+    if (tz && (strcmp(tz, "utc") == 0 || strcmp(tz, "global") == 0)) {
         gmtime_s(&timeinfo_buf, &rawtime);
     } else {
         localtime_s(&timeinfo_buf, &rawtime);
@@ -506,7 +506,7 @@ timestamp_t timestamp_current(lit_p tz) {
     rawtime = tspec.tv_sec;
 
     // Choose UTC or local time
-    if (tz != NULL && strcmp(tz, "utc") == 0)
+    if (tz != NULL && (strcmp(tz, "utc") == 0 || strcmp(tz, "global") == 0))
         timeinfo = gmtime_r(&rawtime, &timeinfo_buf);
     else
         timeinfo = localtime_r(&rawtime, &timeinfo_buf);
-- 
2.43.0


From 9cc9ae2a3ecf37fcdf71c19cd329a9f67987406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 57/98] fix: corrupted serialized data is refused and
 everything serialized reads back

---
 core/error.c |   2 +
 core/serde.c | 126 +++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 103 insertions(+), 25 deletions(-)

diff --git a/core/error.c b/core/error.c
index e58d0fe..11e7adf 100644
--- a/core/error.c
+++ b/core/error.c
@@ -46,6 +46,8 @@ static i32_t get_errno(nil_t) {
 // ============================================================================
 
 obj_p err_raw(err_code_t code) {
+    // no context: what is left of the previous error does not belong to this one
+    memset(&VM->err, 0, sizeof(err_t));
     VM->err.code = (u8_t)code;
     return ERR_OBJ;
 }
diff --git a/core/serde.c b/core/serde.c
index c5ef252..84bcf55 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -84,10 +84,11 @@ i64_t size_of(obj_p obj) {
 }
 
 /*
- * Returns size (in bytes) that an obj occupy in memory via serialization
+ * Returns size (in bytes) that an obj occupy in memory via serialization,
+ * 0 if it (or anything inside of it) can't be serialized
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, n, size;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -117,6 +118,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -137,14 +140,22 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                n = size_obj(AS_LIST(obj)[i]);
+                if (n == 0)
+                    return 0;
+                size += n;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            size = size_obj(AS_LIST(obj)[0]);
+            n = size_obj(AS_LIST(obj)[1]);
+            return (size == 0 || n == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + n;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            size = size_obj(AS_LAMBDA(obj)->args);
+            n = size_obj(AS_LAMBDA(obj)->body);
+            return (size == 0 || n == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + n;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
@@ -362,13 +373,36 @@ obj_p ser_obj(obj_p obj) {
     return buf;
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) {
+// Nesting of the data is limited as it is read recursively
+#define DE_MAX_DEPTH 4096
+
+// Checks that keys and values make a proper table or dictionary: takes ownership of both
+static obj_p de_pair(i8_t type, obj_p k, obj_p v) {
+    i64_t i, l;
+    b8_t ok = IS_VECTOR(k) && IS_VECTOR(v) && k->len == v->len;
+
+    if (ok && type == TYPE_TABLE) {
+        ok = k->type == TYPE_SYMBOL && v->type == TYPE_LIST;
+        for (i = 0, l = v->len; ok && i < l; i++)
+            ok = IS_VECTOR(AS_LIST(v)[i]) && AS_LIST(v)[i]->len == AS_LIST(v)[0]->len;
+    }
+
+    if (!ok) {
+        drop_obj(k);
+        drop_obj(v);
+        return err_domain(0, 0);
+    }
+
+    return (type == TYPE_TABLE) ? table(k, v) : dict(k, v);
+}
+
+static obj_p de_raw_depth(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
 
-    if (*len == 0)
-        return NULL_OBJ;
+    if (*len < 1 || depth > DE_MAX_DEPTH)
+        return err_domain(0, 0);
 
     type = buf[0];
     buf++;
@@ -380,7 +414,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case -TYPE_B8:
             if (*len < 1)
                 return err_domain(0, 0);
-            obj = b8(buf[0]);
+            obj = b8(buf[0] != 0);
             buf++;
             (*len)--;
             return obj;
@@ -456,6 +490,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -465,7 +500,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -473,8 +508,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             buf += ISIZEOF(i64_t);
             (*len) -= ISIZEOF(i64_t) + 1;
 
-            // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            // Check for unreasonable length values that might indicate corruption: an element takes a byte at least
+            if (l < 0 || l > *len)
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -488,6 +523,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     if (IS_ERR(obj))
                         return obj;
                     memcpy(AS_U8(obj), buf, l * ISIZEOF(u8_t));
+                    if (type == TYPE_B8)
+                        for (i = 0; i < l; i++)
+                            AS_U8(obj)[i] = (AS_U8(obj)[i] != 0);
                     buf += l * ISIZEOF(u8_t);
                     (*len) -= l * ISIZEOF(u8_t);
                     return obj;
@@ -501,6 +539,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
@@ -574,7 +622,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                         return obj;
                     c = *len;
                     for (i = 0; i < l; i++) {
-                        v = de_raw(buf + c - *len, len);
+                        v = de_raw_depth(buf + c - *len, len, depth + 1);
                         if (IS_ERR(v)) {
                             obj->len = i;
                             drop_obj(obj);
@@ -590,42 +638,49 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_depth(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_depth(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
-            if (type == TYPE_TABLE)
-                return table(k, v);
-            else
-                return dict(k, v);
+            return de_pair(type, k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_depth(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_depth(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (k->type != TYPE_SYMBOL) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             return lambda(k, v, NULL_OBJ);
 
         case TYPE_UNARY:
@@ -645,6 +700,11 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             buf += i + 1;
             (*len) -= i + 1;
 
+            if (k->type != type) {
+                drop_obj(k);
+                return err_domain(0, 0);
+            }
+
             return k;
 
         case TYPE_ERR: {
@@ -661,7 +721,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                i64_t msg_len = str_len((str_p)buf, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
@@ -678,11 +740,17 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+obj_p de_raw(u8_t *buf, i64_t *len) { return de_raw_depth(buf, len, 0); }
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
+    obj_p res;
     ipc_header_t *header;
 
+    if (obj->type != TYPE_U8)
+        return err_type(TYPE_U8, obj->type, 0, 0);
+
     len = obj->len;
     buf = AS_U8(obj);
 
@@ -703,11 +771,19 @@ obj_p de_obj(obj_p obj) {
     if (header->size > 1000000000)  // 1GB max size
         return err_domain(0, 0);
 
-    if (header->size + ISIZEOF(struct ipc_header_t) != len)
+    if (header->size != len - ISIZEOF(struct ipc_header_t))
         return err_domain(0, 0);
 
     len = header->size;
     buf += ISIZEOF(struct ipc_header_t);
 
-    return de_raw(buf, &len);
+    res = de_raw(buf, &len);
+
+    // All of the data has to be read
+    if (len != 0 && !IS_ERR(res)) {
+        drop_obj(res);
+        return err_domain(0, 0);
+    }
+
+    return res;
 }
-- 
2.43.0


From eaa2f6be96300aaf870fc5212a311b47928448be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 58/98] fix: functions with quoted symbols read back from their
 serialized form

---
 core/serde.c | 77 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 74 insertions(+), 3 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index 84bcf55..a38829f 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -83,6 +83,66 @@ i64_t size_of(obj_p obj) {
     }
 }
 
+/*
+ * Code of a function tells quoted symbols from names by an attribute, which data does not carry. So in there a quoted
+ * symbol is stored as a list of this single symbol, marked by the attribute.
+ */
+static i64_t size_code(obj_p obj) {
+    i64_t i, n, size;
+
+    switch (obj->type) {
+        case -TYPE_SYMBOL:
+            size = size_obj(obj);
+            return (obj->attrs & ATTR_QUOTED) ? ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size : size;
+        case TYPE_LIST:
+            size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
+            for (i = 0; i < obj->len; i++) {
+                n = size_code(AS_LIST(obj)[i]);
+                if (n == 0)
+                    return 0;
+                size += n;
+            }
+            return size;
+        case TYPE_DICT:
+            size = size_code(AS_LIST(obj)[0]);
+            n = size_code(AS_LIST(obj)[1]);
+            return (size == 0 || n == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + n;
+        default:
+            return size_obj(obj);
+    }
+}
+
+static i64_t ser_list_header(u8_t *buf, u8_t attrs, i64_t len) {
+    buf[0] = TYPE_LIST;
+    buf[1] = attrs;
+    memcpy(buf + 2, &len, ISIZEOF(i64_t));
+    return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
+}
+
+static i64_t ser_code(u8_t *buf, obj_p obj) {
+    i64_t i, c;
+
+    switch (obj->type) {
+        case -TYPE_SYMBOL:
+            c = (obj->attrs & ATTR_QUOTED) ? ser_list_header(buf, ATTR_QUOTED, 1) : 0;
+            return c + ser_raw(buf + c, obj);
+        case TYPE_LIST:
+            c = ser_list_header(buf, 0, obj->len);
+            for (i = 0; i < obj->len; i++)
+                c += ser_code(buf + c, AS_LIST(obj)[i]);
+            return c;
+        case TYPE_DICT:
+            buf[0] = obj->type;
+            buf[1] = 0;  // attrs
+            c = ISIZEOF(i8_t) + 1;
+            c += ser_code(buf + c, AS_LIST(obj)[0]);
+            c += ser_code(buf + c, AS_LIST(obj)[1]);
+            return c;
+        default:
+            return ser_raw(buf, obj);
+    }
+}
+
 /*
  * Returns size (in bytes) that an obj occupy in memory via serialization,
  * 0 if it (or anything inside of it) can't be serialized
@@ -154,7 +214,7 @@ i64_t size_obj(obj_p obj) {
             return (size == 0 || n == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + n;
         case TYPE_LAMBDA:
             size = size_obj(AS_LAMBDA(obj)->args);
-            n = size_obj(AS_LAMBDA(obj)->body);
+            n = size_code(AS_LAMBDA(obj)->body);
             return (size == 0 || n == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + n;
         case TYPE_UNARY:
         case TYPE_BINARY:
@@ -320,7 +380,7 @@ i64_t ser_raw(u8_t *buf, obj_p obj) {
             buf[0] = 0;  // attrs
             buf++;
             c = ser_raw(buf, AS_LAMBDA(obj)->args);
-            c += ser_raw(buf + c, AS_LAMBDA(obj)->body);
+            c += ser_code(buf + c, AS_LAMBDA(obj)->body);
             return ISIZEOF(i8_t) + c + 1;
         case TYPE_UNARY:
         case TYPE_BINARY:
@@ -400,6 +460,7 @@ static obj_p de_raw_depth(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
+    u8_t attrs;
 
     if (*len < 1 || depth > DE_MAX_DEPTH)
         return err_domain(0, 0);
@@ -503,7 +564,8 @@ static obj_p de_raw_depth(u8_t *buf, i64_t *len, i64_t depth) {
             if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
-            buf++;  // skip attrs
+            attrs = buf[0];
+            buf++;
             memcpy(&l, buf, ISIZEOF(i64_t));
             buf += ISIZEOF(i64_t);
             (*len) -= ISIZEOF(i64_t) + 1;
@@ -631,6 +693,15 @@ static obj_p de_raw_depth(u8_t *buf, i64_t *len, i64_t depth) {
 
                         AS_LIST(obj)[i] = v;
                     }
+
+                    // a quoted symbol in the code of a function
+                    if ((attrs & ATTR_QUOTED) && l == 1 && AS_LIST(obj)[0]->type == -TYPE_SYMBOL) {
+                        v = clone_obj(AS_LIST(obj)[0]);
+                        drop_obj(obj);
+                        v->attrs = ATTR_QUOTED;
+                        return v;
+                    }
+
                     return obj;
             }
             // Should never reach here
-- 
2.43.0


From 638878e6c90970d698cfe7270d9d77a39b676226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 59/98] fix: a failed call leaves the evaluator stacks as they
 were, locals belong to one call, functions of any size compile, wrong
 argument counts are refused

---
 core/cc.c     | 114 +++++++++++------
 core/cc.h     |   4 +-
 core/eval.c   | 332 ++++++++++++++++++++++++++------------------------
 core/eval.h   |  17 +--
 core/lambda.c |   1 -
 core/lambda.h |   5 -
 core/vary.c   |   3 +
 7 files changed, 263 insertions(+), 213 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 460d1ed..d2a430d 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -81,18 +81,41 @@ span_t bc_dbg_get(obj_p dbg, i64_t ip) {
     return span;
 }
 
+// Append a byte to the bytecode
+static nil_t cc_emit(cc_ctx_t *cc, u8_t op) {
+    if (cc->ip == cc->bc->len)
+        resize_obj(&cc->bc, cc->bc->len * 2);
+    AS_U8(cc->bc)[cc->ip++] = op;
+}
+
+// Set a two bytes operand at the offset
+static nil_t cc_patch(cc_ctx_t *cc, i64_t ip, i64_t n) {
+    if (n > BC_MAX_OPERAND)
+        cc->overflow = B8_TRUE;
+    AS_U8(cc->bc)[ip] = (u8_t)n;
+    AS_U8(cc->bc)[ip + 1] = (u8_t)(n >> 8);
+}
+
+// Append a two bytes operand
+static nil_t cc_arg(cc_ctx_t *cc, i64_t n) {
+    cc_emit(cc, 0);
+    cc_emit(cc, 0);
+    cc_patch(cc, cc->ip - 2, n);
+}
+
 // clang-format off
-#define OP(ctx, op) (AS_U8((ctx)->bc)[(ctx)->ip++] = (u8_t)(op))
+#define OP(ctx, op) cc_emit(ctx, (u8_t)(op))
+#define ARG(ctx, n) cc_arg(ctx, n)
 #define CE(f)       { if ((f) == -1) return -1; }
 
 // Load constant from consts pool by offset (no name, pure value)
-#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); OP(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
+#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); ARG(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
 
 // Load from env by offset (args + let-bound locals, resolvable by name)
-#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); OP(ctx, (offset)); })
+#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); ARG(ctx, (offset)); })
 
 // Store to env by offset (for let bindings)
-#define STOREENV(ctx, offset) ({ OP(ctx, OP_STOREENV); OP(ctx, (offset)); })
+#define STOREENV(ctx, offset) ({ OP(ctx, OP_STOREENV); ARG(ctx, (offset)); })
 
 // Record debug info: map bytecode offset to span from AST node
 #define DBG(ctx, expr) do { \
@@ -124,6 +147,7 @@ static i64_t cc_find_env(cc_ctx_t *cc, i64_t sym) {
 }
 
 static i64_t cc_expr(cc_ctx_t *cc, obj_p e);
+static i64_t cc_body(cc_ctx_t *cc, obj_p *lst, i64_t n);
 
 // Check if the function is a special form that needs control flow handling
 static b8_t is_cond_fn(obj_p car) {
@@ -132,28 +156,22 @@ static b8_t is_cond_fn(obj_p car) {
 }
 
 // Check if vary function is a special form that needs unevaluated arguments
-// Excludes control-flow forms (if, and, or) which need special compilation
+// Excludes control-flow forms (if, do) which need special compilation
 // Note: try is TYPE_BINARY, handled by is_binary_special_form
-static b8_t is_vary_special_form(obj_p fn) {
-    extern obj_p ray_cond(obj_p *, i64_t);
-    extern obj_p ray_and(obj_p *, i64_t);
-    extern obj_p ray_or(obj_p *, i64_t);
+static b8_t is_vary_special_form(obj_p fn) { return fn->type == TYPE_VARY && (fn->attrs & FN_SPECIAL_FORM); }
+
+// Check if the function is a block of expressions
+static b8_t is_do_fn(obj_p car) {
     extern obj_p ray_do(obj_p *, i64_t);
-    if (fn->type != TYPE_VARY || !(fn->attrs & FN_SPECIAL_FORM))
-        return B8_FALSE;
-    // Exclude control-flow forms and do (which evaluates args normally)
-    vary_f f = (vary_f)fn->i64;
-    return f != ray_cond && f != ray_and && f != ray_or && f != ray_do;
+    return car->type == TYPE_VARY && (vary_f)car->i64 == ray_do;
 }
 
 // Compile if/cond expression
 static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     i64_t j1, j2;
 
-    if (n < 2 || n > 3) {
-        LOADCONST(cc, NULL_OBJ);
-        return 0;
-    }
+    if (n < 2 || n > 3)
+        return -1;
 
     // compile condition
     CE(cc_expr(cc, lst[0]));
@@ -161,7 +179,7 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     // jump if false to else branch
     OP(cc, OP_JMPF);
     j1 = cc->ip;
-    OP(cc, 0);
+    ARG(cc, 0);
 
     // compile then branch
     CE(cc_expr(cc, lst[1]));
@@ -169,10 +187,10 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     // jump over else branch
     OP(cc, OP_JMP);
     j2 = cc->ip;
-    OP(cc, 0);
+    ARG(cc, 0);
 
     // patch jmpf offset
-    AS_U8(cc->bc)[j1] = (u8_t)(cc->ip - j1 - 1);
+    cc_patch(cc, j1, cc->ip - j1 - 2);
 
     // compile else branch (or null)
     if (n == 3) {
@@ -182,7 +200,7 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     }
 
     // patch jmp offset
-    AS_U8(cc->bc)[j2] = (u8_t)(cc->ip - j2 - 1);
+    cc_patch(cc, j2, cc->ip - j2 - 2);
 
     return 0;
 }
@@ -217,7 +235,16 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         return cc_cond(cc, lst, n);
     }
 
-    // Handle vary special forms that need unevaluated arguments (e.g. timeit)
+    // Handle blocks of expressions
+    if (is_do_fn(car)) {
+        if (n == 0) {
+            LOADCONST(cc, NULL_OBJ);
+            return 0;
+        }
+        return cc_body(cc, lst, n);
+    }
+
+    // Handle vary special forms that need unevaluated arguments (e.g. and, or, timeit)
     if (is_vary_special_form(car)) {
         // Push all arguments as constants (no evaluation)
         for (i = 0; i < n; ++i) {
@@ -226,7 +253,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         DBG(cc, expr);
         LOADCONST(cc, clone_obj(car));
         OP(cc, OP_CALLN);
-        OP(cc, n);
+        ARG(cc, n);
         return 0;
     }
 
@@ -283,23 +310,24 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         case TYPE_VARY:
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLN);
-            OP(cc, n);
+            ARG(cc, n);
             break;
 
         case TYPE_LAMBDA:
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLF);
+            ARG(cc, n);
             break;
 
         case -TYPE_SYMBOL:
-            if (car->i64 == SYMBOL_SELF) {
+            if (car->i64 == SYMBOL_SELF && n == cc->args->len) {
                 // Self-recursive call
                 OP(cc, OP_CALLS);
             } else {
                 // Dynamic call - need to resolve symbol at runtime
                 CE(cc_expr(cc, car));
                 OP(cc, OP_CALLD);
-                OP(cc, n);
+                ARG(cc, n);
             }
             break;
 
@@ -307,7 +335,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
             // For other types, try to evaluate at runtime
             CE(cc_expr(cc, car));
             OP(cc, OP_CALLD);
-            OP(cc, n);
+            ARG(cc, n);
             break;
     }
 
@@ -376,9 +404,11 @@ static obj_p cc_fn(cc_ctx_t *cc, obj_p *lst, i64_t n) {
         goto end;
     }
 
-    if (cc_body(cc, lst, n) == -1) {
+    if (cc_body(cc, lst, n) == -1 || cc->overflow) {
         // Add location info from the failing expression before returning error
         cc_error_add_loc(cc);
+        if (cc->overflow)
+            return err_limit(BC_MAX_OPERAND);
         return err_type(0, 0, 0, 0);
     }
 
@@ -410,6 +440,7 @@ obj_p cc_compile(obj_p lambda) {
         .nfo = fn->nfo,  // Source nfo from parser
         .lp = 0,
         .cur_expr = NULL_OBJ,    // Current expression being compiled
+        .overflow = B8_FALSE,
         .env_names = SYMBOL(0),  // Env layout: symbol names by offset
     };
 
@@ -474,12 +505,18 @@ obj_p cc_compile(obj_p lambda) {
     return NULL_OBJ;  // Success
 }
 
+static i32_t cc_operand(u8_t *bc, i64_t *i) {
+    *i += 2;
+    return bc[*i - 1] | (bc[*i] << 8);
+}
+
 // Dump bytecode for debugging
 nil_t cc_dump(obj_p lambda) {
     lambda_p fn = AS_LAMBDA(lambda);
     u8_t *bc;
     obj_p *consts;
     i64_t n, i;
+    i32_t n1;
     obj_p fmt;
 
     if (fn->bc == NULL_OBJ) {
@@ -502,22 +539,23 @@ nil_t cc_dump(obj_p lambda) {
                 printf("RET\n");
                 break;
             case OP_JMP:
-                printf("JMP +%d\n", bc[++i]);
+                printf("JMP +%d\n", cc_operand(bc, &i));
                 break;
             case OP_JMPF:
-                printf("JMPF +%d\n", bc[++i]);
+                printf("JMPF +%d\n", cc_operand(bc, &i));
                 break;
             // Data operations
             case OP_LOADCONST:
-                fmt = obj_fmt(consts[bc[++i]], B8_FALSE);
-                printf("LOADCONST %lld (%.*s)\n", (i64_t)bc[i], (i32_t)fmt->len, AS_C8(fmt));
+                n1 = cc_operand(bc, &i);
+                fmt = obj_fmt(consts[n1], B8_FALSE);
+                printf("LOADCONST %d (%.*s)\n", n1, (i32_t)fmt->len, AS_C8(fmt));
                 drop_obj(fmt);
                 break;
             case OP_LOADENV:
-                printf("LOADENV %d\n", bc[++i]);
+                printf("LOADENV %d\n", cc_operand(bc, &i));
                 break;
             case OP_STOREENV:
-                printf("STOREENV %d\n", bc[++i]);
+                printf("STOREENV %d\n", cc_operand(bc, &i));
                 break;
             case OP_POP:
                 printf("POP\n");
@@ -534,16 +572,16 @@ nil_t cc_dump(obj_p lambda) {
                 printf("CALL2\n");
                 break;
             case OP_CALLN:
-                printf("CALLN %d\n", bc[++i]);
+                printf("CALLN %d\n", cc_operand(bc, &i));
                 break;
             case OP_CALLF:
-                printf("CALLF\n");
+                printf("CALLF %d\n", cc_operand(bc, &i));
                 break;
             case OP_CALLS:
                 printf("CALLS\n");
                 break;
             case OP_CALLD:
-                printf("CALLD %d\n", bc[++i]);
+                printf("CALLD %d\n", cc_operand(bc, &i));
                 break;
             default:
                 printf("??? %d\n", bc[i]);
diff --git a/core/cc.h b/core/cc.h
index 5d225a7..40d38aa 100644
--- a/core/cc.h
+++ b/core/cc.h
@@ -28,7 +28,8 @@
 #include "lambda.h"
 #include "nfo.h"
 
-#define BC_SIZE 256
+#define BC_SIZE 256            // initial size
+#define BC_MAX_OPERAND 0xffff  // operands take two bytes
 
 // Compiler context
 typedef struct cc_ctx_t {
@@ -39,6 +40,7 @@ typedef struct cc_ctx_t {
     obj_p consts;     // constants pool (LIST) - pure values, no names
     obj_p dbg;        // debug info: maps bytecode offset -> span (I64 pairs)
     obj_p nfo;        // source nfo from parser (for span lookups)
+    b8_t overflow;    // an operand does not fit
     i64_t lp;         // locals pointer - unused
     obj_p cur_expr;   // current expression being compiled (for error reporting)
     obj_p env_names;  // env layout: SYMBOL vector mapping offset -> name
diff --git a/core/eval.c b/core/eval.c
index 7bcbac5..ad77563 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -47,6 +47,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     vm->fp = 0;
     vm->rp = 0;
     vm->fn = NULL_OBJ;
+    vm->env = NULL_OBJ;
     vm->id = id;
     vm->pool = pool;
     // Cold fields
@@ -91,12 +92,11 @@ nil_t vm_destroy(vm_p vm) {
 // Symbol Resolution
 // ============================================================================
 
-// Helper: resolve symbol in a lambda's env (unified args + locals)
+// Helper: resolve symbol in a call frame of a lambda (unified args + locals)
 // Returns pointer to value slot, or NULL if not found
 // - offset < nargs: return stack pointer at fp_offset + offset
-// - offset >= nargs: return env->values pointer
-static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
-    obj_p env;
+// - offset >= nargs: return pointer into values of the frame's locals
+static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     i64_t i, n;
     vm_p vm = VM;
 
@@ -114,8 +114,7 @@ static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
     }
 
     // Then check let-bound locals in env
-    env = AS_LAMBDA(fn)->env;
-    if (env != NULL_OBJ && env->type == TYPE_DICT) {
+    if (env != NULL_OBJ) {
         n = AS_LIST(env)[0]->len;
         for (i = 0; i < n; i++) {
             if (AS_SYMBOL(AS_LIST(env)[0])[i] == sym) {
@@ -143,14 +142,14 @@ obj_p *resolve(i64_t sym) {
         return &vm->fn;
 
     // Search in current lambda's env (args + let-bound locals)
-    result = resolve_in_env(fn, sym, vm->fp);
+    result = resolve_in_env(fn, vm->env, sym, vm->fp);
     if (result != NULL)
         return result;
 
     // Walk up return stack - check each parent lambda's env
     for (frame = vm->rp; frame > 0; frame--) {
         fn = vm->rs[frame - 1].fn;
-        result = resolve_in_env(fn, sym, vm->rs[frame - 1].fp);
+        result = resolve_in_env(fn, vm->rs[frame - 1].env, sym, vm->rs[frame - 1].fp);
         if (result != NULL)
             return result;
     }
@@ -176,17 +175,28 @@ obj_p *resolve(i64_t sym) {
 }
 
 obj_p amend(obj_p sym, obj_p val) {
-    obj_p *env_slot;
+    i64_t i;
+    obj_p args;
     vm_p vm = VM;
 
-    // Add to current lambda's env, or globals if at top level
+    // Add to locals of the current call, or globals if at top level
     if (vm->fn != NULL_OBJ) {
-        env_slot = &AS_LAMBDA(vm->fn)->env;
-        if (*env_slot != NULL_OBJ)
-            set_obj(env_slot, sym, clone_obj(val));
+        args = AS_LAMBDA(vm->fn)->args;
+
+        // an argument: always on the stack
+        for (i = 0; args != NULL_OBJ && i < args->len; i++) {
+            if (AS_SYMBOL(args)[i] == sym->i64) {
+                drop_obj(vm->ps[vm->fp + i]);
+                vm->ps[vm->fp + i] = clone_obj(val);
+                return val;
+            }
+        }
+
+        if (vm->env != NULL_OBJ)
+            set_obj(&vm->env, sym, clone_obj(val));
         else {
-            *env_slot = dict(vector(TYPE_SYMBOL, 1), vn_list(1, clone_obj(val)));
-            AS_SYMBOL(AS_LIST(*env_slot)[0])[0] = sym->i64;
+            vm->env = dict(vector(TYPE_SYMBOL, 1), vn_list(1, clone_obj(val)));
+            AS_SYMBOL(AS_LIST(vm->env)[0])[0] = sym->i64;
         }
     } else {
         // Top level: add to globals
@@ -295,24 +305,33 @@ static inline obj_p unwrap(obj_p obj, i64_t id) {
     return obj;
 }
 
-// Unwind return stack on error, adding trace frames for each caller
-static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
+// Leave the frame of a function called from the bytecode: arguments remain on the stack
+static inline ctx_t *vm_leave(vm_p vm) {
+    ctx_t *rs = &vm->rs[--vm->rp];
+
+    drop_obj(vm->env);
+    drop_obj(vm->fn);
+    vm->fn = rs->fn;
+    vm->fp = rs->fp;
+    vm->env = rs->env;
+
+    return rs;
+}
+
+// Unwind stacks on error up to the point this evaluation has been started from, adding trace frames for each caller
+static obj_p vm_error_unwind(vm_p vm, obj_p err, i64_t sp) {
     ctx_t *rs;
-    while (vm->rp > 0) {
-        rs = &vm->rs[vm->rp - 1];
-        if (rs->ip == -1) {
-            // External call marker - stop unwinding
-            vm->rp--;
-            vm->fn = rs->fn;
-            vm->fp = rs->fp;
-            break;
-        }
+
+    // frame of the external call is left by the call() itself
+    while (vm->rp > 0 && vm->rs[vm->rp - 1].ip != -1) {
+        rs = vm_leave(vm);
         // Add caller's location to trace
         bc_error_add_loc(err, rs->fn, rs->ip - 1);
-        vm->rp--;
-        vm->fn = rs->fn;
-        vm->fp = rs->fp;
     }
+
+    while (vm->sp > sp)
+        drop_obj(vm_stack_pop());
+
     return err;
 }
 
@@ -326,7 +345,7 @@ __attribute__((hot)) obj_p vm_eval(obj_p fn) {
     obj_p *consts;
     ctx_t *rs;
     i64_t ip = 0;
-    i64_t n;
+    i64_t n, sp = vm->sp;
     obj_p x, y, r, *l, res, *val;
 
     // Setup VM for this function
@@ -354,6 +373,7 @@ __attribute__((hot)) obj_p vm_eval(obj_p fn) {
     };
 
 #define next() goto *OPS[bc[ip++]]
+#define operand() (ip += 2, bc[ip - 2] | (bc[ip - 1] << 8))
 #define push(v) (vm->ps[vm->sp++] = (v))
 #define pop() (vm->ps[--vm->sp])
 #define top(n) (&vm->ps[vm->sp - (n)])
@@ -374,10 +394,8 @@ OP_RET:
         r = pop();
         while (vm->sp > vm->fp)
             drop_obj(pop());
-        vm->rp--;
+        rs = vm_leave(vm);
         ip = rs->ip;
-        vm->fp = rs->fp;
-        vm->fn = rs->fn;
         bc = AS_U8(AS_LAMBDA(vm->fn)->bc);
         consts = AS_LIST(AS_LAMBDA(vm->fn)->consts);
         // Add caller's location to trace if error is propagating
@@ -390,12 +408,12 @@ OP_RET:
     return pop();
 
 OP_JMP:
-    n = bc[ip++];
+    n = operand();
     ip += n;
     next();
 
 OP_JMPF:
-    n = bc[ip++];
+    n = operand();
     x = pop();
     if (!ops_as_b8(x))
         ip += n;
@@ -403,7 +421,10 @@ OP_JMPF:
     next();
 
 OP_LOADCONST:
-    push(clone_obj(consts[bc[ip++]]));
+    n = operand();
+    if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
+        goto overflow;
+    push(clone_obj(consts[n]));
     next();
 
 OP_POP:
@@ -417,7 +438,7 @@ OP_RESOLVE:
         r = err_value(x->i64);  // symbol not found
         drop_obj(x);
         bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r);
+        return vm_error_unwind(vm, r, sp);
     }
     y = clone_obj(*val);
     drop_obj(x);
@@ -433,7 +454,7 @@ OP_CALL1:
     drop_obj(y);
     if (UNLIKELY(IS_ERR(r))) {
         bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r);
+        return vm_error_unwind(vm, r, sp);
     }
     push(r);
     next();
@@ -448,13 +469,13 @@ OP_CALL2:
     drop_obj(r);
     if (UNLIKELY(IS_ERR(res))) {
         bc_error_add_loc(res, vm->fn, ip - 1);
-        return vm_error_unwind(vm, res);
+        return vm_error_unwind(vm, res, sp);
     }
     push(res);
     next();
 
 OP_CALLN:
-    n = bc[ip++];  // arity
+    n = operand();  // arity
     r = pop();     // function
     l = top(n);
     res = vary_call(r, l, n);
@@ -464,19 +485,20 @@ OP_CALLN:
     drop_obj(r);
     if (UNLIKELY(IS_ERR(res))) {
         bc_error_add_loc(res, vm->fn, ip - 1);
-        return vm_error_unwind(vm, res);
+        return vm_error_unwind(vm, res, sp);
     }
     push(res);
     next();
 
 OP_CALLF:
-    x = pop();  // lambda function
+    n = operand();  // arity
+    x = pop();      // lambda function
     if (UNLIKELY(x->type != TYPE_LAMBDA)) {
         i8_t got = x->type;
         drop_obj(x);
         r = err_type(TYPE_LAMBDA, got, 0, 0);
         bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r);
+        return vm_error_unwind(vm, r, sp);
     }
 callf:
     // Compile if not already compiled
@@ -485,28 +507,35 @@ callf:
         if (UNLIKELY(IS_ERR(r))) {
             drop_obj(x);
             bc_error_add_loc(r, vm->fn, ip - 1);
-            return vm_error_unwind(vm, r);
+            return vm_error_unwind(vm, r, sp);
         }
     }
+    if (UNLIKELY(n != AS_LAMBDA(x)->args->len)) {
+        r = err_length(AS_LAMBDA(x)->args->len, n, 0, 0, 0, 0);
+        drop_obj(x);
+        bc_error_add_loc(r, vm->fn, ip - 1);
+        return vm_error_unwind(vm, r, sp);
+    }
     // Check for stack overflow
     if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
         drop_obj(x);
         r = err_limit(VM_STACK_SIZE);
         bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r);
+        return vm_error_unwind(vm, r, sp);
     }
     // Save current context
     rs = &vm->rs[vm->rp++];
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
-    // Switch to new function
+    rs->env = vm->env;
+    // Switch to new function: the frame owns it
     vm->fp = vm->sp - AS_LAMBDA(x)->args->len;
     vm->fn = x;
+    vm->env = NULL_OBJ;
     bc = AS_U8(AS_LAMBDA(x)->bc);
     consts = AS_LIST(AS_LAMBDA(x)->consts);
     ip = 0;
-    drop_obj(x);  // Safe because it's on the constants pool
     next();
 
 OP_CALLS:
@@ -514,18 +543,21 @@ OP_CALLS:
     if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
         r = err_limit(VM_STACK_SIZE);
         bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r);
+        return vm_error_unwind(vm, r, sp);
     }
     rs = &vm->rs[vm->rp++];
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->env = vm->env;
     vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
+    vm->fn = clone_obj(vm->fn);
+    vm->env = NULL_OBJ;
     ip = 0;
     next();
 
 OP_CALLD:
-    n = bc[ip++];  // arity
+    n = operand();  // arity
     x = pop();     // function (dynamically resolved)
     switch (x->type) {
         case TYPE_UNARY:
@@ -533,7 +565,7 @@ OP_CALLD:
                 drop_obj(x);
                 r = err_arity(1, n, 0);
                 bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r);
+                return vm_error_unwind(vm, r, sp);
             }
             y = pop();
             r = unary_call(x, y);
@@ -541,7 +573,7 @@ OP_CALLD:
             drop_obj(x);
             if (UNLIKELY(IS_ERR(r))) {
                 bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r);
+                return vm_error_unwind(vm, r, sp);
             }
             push(r);
             break;
@@ -550,7 +582,7 @@ OP_CALLD:
                 drop_obj(x);
                 r = err_arity(2, n, 0);
                 bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r);
+                return vm_error_unwind(vm, r, sp);
             }
             y = pop();
             r = pop();
@@ -560,7 +592,7 @@ OP_CALLD:
             drop_obj(x);
             if (UNLIKELY(IS_ERR(res))) {
                 bc_error_add_loc(res, vm->fn, ip - 1);
-                return vm_error_unwind(vm, res);
+                return vm_error_unwind(vm, res, sp);
             }
             push(res);
             break;
@@ -573,7 +605,7 @@ OP_CALLD:
             drop_obj(x);
             if (UNLIKELY(IS_ERR(r))) {
                 bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r);
+                return vm_error_unwind(vm, r, sp);
             }
             push(r);
             break;
@@ -584,80 +616,35 @@ OP_CALLD:
             drop_obj(x);
             r = err_type(TYPE_LAMBDA, got, 0, 0);  // not callable
             bc_error_add_loc(r, vm->fn, ip - 1);
-            return vm_error_unwind(vm, r);
+            return vm_error_unwind(vm, r, sp);
         }
     }
     next();
 
 OP_LOADENV:
-    // Load from env by offset
-    // - offset < nargs: load from stack (args passed on stack)
-    // - offset >= nargs: load from lambda->env values (let-bound locals)
-    n = bc[ip++];
-    {
-        i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
-        if (n < nargs) {
-            // Args are on stack at fp+offset
-            x = vm->ps[vm->fp + n];
-            push(clone_obj(x));
-        } else {
-            // Let-bound locals in env values
-            obj_p env = AS_LAMBDA(vm->fn)->env;
-            if (env != NULL_OBJ && env->type == TYPE_DICT) {
-                i64_t local_idx = n - nargs;
-                obj_p values = AS_LIST(env)[1];
-                if (local_idx < values->len) {
-                    push(clone_obj(AS_LIST(values)[local_idx]));
-                } else {
-                    // Local not yet defined - push null
-                    push(clone_obj(NULL_OBJ));
-                }
-            } else {
-                push(clone_obj(NULL_OBJ));
-            }
-        }
-    }
+    // Load an argument: they are on stack at fp+offset
+    n = operand();
+    if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
+        goto overflow;
+    push(clone_obj(vm->ps[vm->fp + n]));
     next();
 
 OP_STOREENV:
-    // Store to env by offset (for let bindings)
-    // Value is on stack top, store to env->values[offset - nargs]
-    n = bc[ip++];
-    {
-        i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
-        obj_p env = AS_LAMBDA(vm->fn)->env;
-        x = pop();  // value to store
-
-        if (n < nargs) {
-            // Storing to arg slot - update stack
-            drop_obj(vm->ps[vm->fp + n]);
-            vm->ps[vm->fp + n] = x;
-        } else if (env != NULL_OBJ && env->type == TYPE_DICT) {
-            // Store to let-bound local
-            i64_t local_idx = n - nargs;
-            obj_p values = AS_LIST(env)[1];
-
-            // Extend values list if needed
-            while (values->len <= local_idx) {
-                obj_p null_val = NULL_OBJ;
-                push_obj(&AS_LIST(env)[1], clone_obj(null_val));
-                values = AS_LIST(env)[1];
-            }
-
-            // Store value
-            drop_obj(AS_LIST(values)[local_idx]);
-            AS_LIST(values)[local_idx] = x;
-        } else {
-            // No env, just drop the value
-            drop_obj(x);
-        }
-        // Push the value back (let returns the value)
-        push(clone_obj(n < nargs ? vm->ps[vm->fp + n] : AS_LIST(AS_LIST(env)[1])[n - nargs]));
-    }
+    // Store to an argument, value is on stack top and remains there
+    n = operand();
+    x = *top(1);
+    drop_obj(vm->ps[vm->fp + n]);
+    vm->ps[vm->fp + n] = clone_obj(x);
     next();
 
+overflow:
+    r = err_limit(VM_STACK_SIZE);
+    bc_error_add_loc(r, vm->fn, ip - 1);
+    return vm_error_unwind(vm, r, sp);
+
 #undef next
 #undef push
+#undef operand
 #undef pop
 #undef top
 }
@@ -670,9 +657,11 @@ obj_p call(obj_p fn, i64_t arity) {
     lambda_p lam = AS_LAMBDA(fn);
     obj_p res;
     vm_p vm = VM;
-    obj_p saved_fn = vm->fn;
-    i64_t saved_fp = vm->fp;
-    UNUSED(arity);
+    ctx_t *rs;
+    i64_t rp;
+
+    if (arity != lam->args->len)
+        return err_length(lam->args->len, arity, 0, 0, 0, 0);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
     if (lam->bc == NULL_OBJ) {
@@ -681,20 +670,31 @@ obj_p call(obj_p fn, i64_t arity) {
             return res;
     }
 
+    if (vm->rp >= VM_STACK_SIZE)
+        return err_limit(VM_STACK_SIZE);
+
     // Push to return stack - this lets resolve() find parent scope
     // ip = -1 marks this as an external call (OP_RET will return to vm_eval top level)
-    vm->rs[vm->rp].fn = saved_fn;
-    vm->rs[vm->rp].fp = saved_fp;
-    vm->rs[vm->rp].ip = -1;  // External call marker
-    vm->rp++;
+    rp = vm->rp++;
+    rs = &vm->rs[rp];
+    rs->fn = vm->fn;
+    rs->fp = vm->fp;
+    rs->env = vm->env;
+    rs->ip = -1;  // External call marker
+
+    vm->env = NULL_OBJ;
 
-    // Execute bytecode
+    // Execute bytecode, function has to stay alive meanwhile
+    clone_obj(fn);
     res = vm_eval(fn);
+    drop_obj(fn);
 
     // Pop frame and restore context
-    vm->rp--;
-    vm->fn = saved_fn;
-    vm->fp = saved_fp;
+    drop_obj(vm->env);
+    vm->rp = rp;
+    vm->fn = rs->fn;
+    vm->fp = rs->fp;
+    vm->env = rs->env;
 
     return res;
 }
@@ -783,8 +783,11 @@ static obj_p eval_vary(obj_p fn, obj_p *args, i64_t len, i64_t id) {
 
     for (i = 0; i < len; i++) {
         x = eval_arg(args[i], is_aggr);
-        if (IS_ERR(x))
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
@@ -809,13 +812,13 @@ static obj_p eval_lambda(obj_p fn, obj_p *args, i64_t len, i64_t id) {
         return unwrap(err_limit(VM_STACK_SIZE), id);
 
     for (i = 0; i < len; i++) {
-        x = eval(args[i]);
-        if (IS_ERR(x))
-            return x;
         // Materialize lazy values (MAPGROUP/MAPFILTER) for lambda arguments
-        x = collect_lazy(x);
-        if (IS_ERR(x))
+        x = eval_arg(args[i], B8_FALSE);
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
@@ -836,50 +839,57 @@ static inline obj_p eval_sym(obj_p sym) {
     return clone_obj(*val);
 }
 
-// Evaluate list (function call)
-static obj_p eval_list(obj_p obj) {
-    obj_p car, *val, *args;
-    i64_t len, id;
-
-    if (obj->len == 0)
-        return NULL_OBJ;
-
-    args = AS_LIST(obj);
-    car = args[0];
-    len = obj->len - 1;
-    args++;
-    id = (i64_t)obj;
-
-dispatch:
-    switch (car->type) {
+// Evaluate call of the function
+static obj_p eval_call(obj_p fn, obj_p *args, i64_t len, i64_t id) {
+    switch (fn->type) {
         case TYPE_UNARY:
             if (len != 1)
                 return unwrap(err_arity(1, len, 0), id);
-            return eval_unary(car, args, id);
+            return eval_unary(fn, args, id);
 
         case TYPE_BINARY:
             if (len != 2)
                 return unwrap(err_arity(2, len, 0), id);
-            return eval_binary(car, args, id);
+            return eval_binary(fn, args, id);
 
         case TYPE_VARY:
-            return eval_vary(car, args, len, id);
+            return eval_vary(fn, args, len, id);
 
         case TYPE_LAMBDA:
-            return eval_lambda(car, args, len, id);
-
-        case -TYPE_SYMBOL:
-            val = resolve(car->i64);
-            if (val == NULL)
-                return unwrap(err_value(car->i64), id);
-            car = *val;
-            goto dispatch;
+            return eval_lambda(fn, args, len, id);
 
         default:
-            return unwrap(err_type(TYPE_LAMBDA, car->type, 0, 0), id);  // not callable
+            return unwrap(err_type(TYPE_LAMBDA, fn->type, 0, 0), id);  // not callable
     }
 }
 
+// Evaluate list (function call)
+static obj_p eval_list(obj_p obj) {
+    obj_p car, *val, res;
+    i64_t len, id;
+
+    if (obj->len == 0)
+        return NULL_OBJ;
+
+    car = AS_LIST(obj)[0];
+    len = obj->len - 1;
+    id = (i64_t)obj;
+
+    if (car->type != -TYPE_SYMBOL)
+        return eval_call(car, AS_LIST(obj) + 1, len, id);
+
+    val = resolve(car->i64);
+    if (val == NULL)
+        return unwrap(err_value(car->i64), id);
+
+    // Keep the function alive: evaluation of the arguments may reassign its name
+    car = clone_obj(*val);
+    res = eval_call(car, AS_LIST(obj) + 1, len, id);
+    drop_obj(car);
+
+    return res;
+}
+
 // Main eval dispatcher
 __attribute__((hot)) obj_p eval(obj_p obj) {
     switch (obj->type) {
diff --git a/core/eval.h b/core/eval.h
index 96307f6..432e765 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -57,7 +57,7 @@ typedef enum op_type_t {
     OP_CALL1,  // Call unary function (1 arg on stack, then fn)
     OP_CALL2,  // Call binary function (2 args on stack, then fn)
     OP_CALLN,  // Call variadic function (operand: arity)
-    OP_CALLF,  // Call lambda function
+    OP_CALLF,  // Call lambda function (operand: arity)
     OP_CALLS,  // Call self (recursive tail call)
     OP_CALLD,  // Call dynamic - runtime dispatch (operand: arity)
 } op_type_t;
@@ -66,11 +66,12 @@ typedef enum op_type_t {
 struct pool_t;
 struct heap_t;
 
-// Return stack frame - compact for cache efficiency (16 bytes)
+// Return stack frame - compact for cache efficiency (24 bytes)
 typedef struct ctx_t {
-    obj_p fn;  // function pointer (lambda->env has the environment)
-    i32_t fp;  // frame pointer (max VM_STACK_SIZE = 1024)
-    i32_t ip;  // instruction pointer (max bytecode ~64KB)
+    obj_p fn;   // function pointer
+    obj_p env;  // let-bound locals of the function: DICT (symbols -> values) or NULL_OBJ
+    i32_t fp;   // frame pointer (max VM_STACK_SIZE = 1024)
+    i32_t ip;   // instruction pointer (max bytecode ~64KB)
 } ctx_t;
 
 // Virtual machine state - layout optimized for cache efficiency
@@ -84,13 +85,15 @@ typedef struct vm_t {
     i32_t rp;  // return stack pointer
     i32_t id;  // VM id (thread index)
     // Pointers (40 bytes)
-    obj_p fn;                       // current function (fn->env has local variables)
+    obj_p fn;                       // current function
+    obj_p env;                      // let-bound locals of the current function
     struct heap_t *heap;            // heap pointer
     struct pool_t *pool;            // pool pointer
     struct query_ctx_t *query_ctx;  // query context stack (for table column resolution)
     timeit_t *timeit;               // timeit (lazy allocated)
     // === Stacks ===
-    obj_p ps[VM_STACK_SIZE];  // program stack
+    // Limited by VM_STACK_SIZE, the rest is for arguments the builtins push
+    obj_p ps[2 * VM_STACK_SIZE];  // program stack
     ctx_t rs[VM_STACK_SIZE];  // return stack
     // === COLD section ===
     obj_p nfo;    // error source info
diff --git a/core/lambda.c b/core/lambda.c
index 02e2cdd..42ff155 100644
--- a/core/lambda.c
+++ b/core/lambda.c
@@ -45,7 +45,6 @@ obj_p lambda(obj_p args, obj_p body, obj_p nfo) {
     f->bc = NULL_OBJ;      // Bytecode (compiled on first call)
     f->consts = NULL_OBJ;  // Constants pool
     f->dbg = NULL_OBJ;     // Debug info (bytecode offset -> span)
-    f->env = NULL_OBJ;     // Local env for resolve() (args + let-bound locals)
 
     return obj;
 }
diff --git a/core/lambda.h b/core/lambda.h
index aa0577c..565ffc2 100644
--- a/core/lambda.h
+++ b/core/lambda.h
@@ -34,11 +34,6 @@ typedef struct lambda_f {
     obj_p bc;      // bytecode (U8 vector)
     obj_p consts;  // constants pool (LIST) - pure values, no names, accessed by offset
     obj_p dbg;     // debug info (maps bytecode offset -> span)
-    obj_p env;     // local environment DICT (symbols -> values):
-                   //   - At compile time: access by offset via OP_LOADENV/OP_STOREENV
-                   //   - At runtime: resolvable by name via resolve()
-                   //   - Contains: args (at start) + let-bound locals
-                   //   - Structure: (names: SYMBOL[], values: LIST) as DICT
 } *lambda_p;
 
 #define AS_LAMBDA(o) ((lambda_p)(AS_C8(o)))
diff --git a/core/vary.c b/core/vary.c
index ad17a64..378a7f1 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -78,6 +78,9 @@ obj_p ray_apply(obj_p *x, i64_t n) {
             if (n != AS_LAMBDA(f)->args->len)
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
+            if (!vm_stack_enough(n))
+                return err_limit(VM_STACK_SIZE);
+
             for (i = 0; i < n; i++)
                 vm_stack_push(clone_obj(x[i]));
 
-- 
2.43.0


From debe8c0b427db0df7979653ab02af66614bab6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 60/98] fix: source text is read within its own bytes:
 unterminated strings, numbers, dates and escapes at the end, names starting
 with true, deep nesting; printing an error stays within its line

---
 core/eval.c   |  35 +++++++++-
 core/eval.h   |   2 +
 core/format.c |  64 +++++++++---------
 core/parse.c  | 183 +++++++++++++++++++++++++++++---------------------
 core/parse.h  |   4 ++
 5 files changed, 175 insertions(+), 113 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index ad77563..4a02b90 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -46,6 +46,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     vm->sp = 0;
     vm->fp = 0;
     vm->rp = 0;
+    vm->depth = 0;
     vm->fn = NULL_OBJ;
     vm->env = NULL_OBJ;
     vm->id = id;
@@ -892,9 +893,18 @@ static obj_p eval_list(obj_p obj) {
 
 // Main eval dispatcher
 __attribute__((hot)) obj_p eval(obj_p obj) {
+    obj_p res;
+    vm_p vm;
+
     switch (obj->type) {
         case TYPE_LIST:
-            return eval_list(obj);
+            vm = VM;
+            if (UNLIKELY(vm->depth >= EVAL_MAX_DEPTH))
+                return err_limit(EVAL_MAX_DEPTH);
+            vm->depth++;
+            res = eval_list(obj);
+            vm->depth--;
+            return res;
         case -TYPE_SYMBOL:
             return eval_sym(obj);
         default:
@@ -943,11 +953,29 @@ obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file) {
 
 obj_p eval_obj(obj_p obj) { return eval(obj); }
 
+// Forget locations of errors, except for the first n of them
+static nil_t trace_truncate(vm_p vm, i64_t n) {
+    if (vm->trace == NULL_OBJ)
+        return;
+
+    while (vm->trace->len > n)
+        drop_obj(AS_LIST(vm->trace)[--vm->trace->len]);
+
+    if (n == 0) {
+        drop_obj(vm->trace);
+        vm->trace = NULL_OBJ;
+    }
+}
+
 obj_p eval_str_w_attr(lit_p str, i64_t len, obj_p nfo_arg) {
     obj_p parsed, res;
     vm_p vm = VM;
     obj_p saved_nfo = vm ? vm->nfo : NULL_OBJ;
 
+    // Locations of an error nobody has printed do not outlive the evaluation it happened in
+    if (vm && saved_nfo == NULL_OBJ && vm->rp == 0)
+        trace_truncate(vm, 0);
+
     timeit_reset();
     timeit_span_start("top-level");
 
@@ -1016,11 +1044,16 @@ obj_p ray_eval_str_line(obj_p str, obj_p file, i64_t line) {
 
 obj_p try_obj(obj_p obj, obj_p ctch) {
     obj_p res;
+    vm_p vm = VM;
+    i64_t n = (vm->trace == NULL_OBJ) ? 0 : vm->trace->len;
 
     // Simple try - just evaluate and catch errors
     res = eval(obj);
 
     if (IS_ERR(res)) {
+        // The error is handled: forget its locations
+        trace_truncate(vm, n);
+
         obj_p *pfn;
         obj_p fn = ctch;
 
diff --git a/core/eval.h b/core/eval.h
index 432e765..0bfe8a7 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -36,6 +36,7 @@
 struct query_ctx_t;
 
 #define VM_STACK_SIZE 1024
+#define EVAL_MAX_DEPTH 4096  // nested evaluations of lists
 
 // Bytecode opcodes - grouped by category
 typedef enum op_type_t {
@@ -96,6 +97,7 @@ typedef struct vm_t {
     obj_p ps[2 * VM_STACK_SIZE];  // program stack
     ctx_t rs[VM_STACK_SIZE];  // return stack
     // === COLD section ===
+    i64_t depth;  // nested evaluations of lists in progress
     obj_p nfo;    // error source info
     obj_p trace;  // error stack trace
     err_t err;    // last error context (no allocation)
diff --git a/core/format.c b/core/format.c
index 6870b0e..70e8582 100644
--- a/core/format.c
+++ b/core/format.c
@@ -438,25 +438,20 @@ static i64_t line_num_width(u16_t line) {
 // Format pointer: ▲ pointing up to location, then └─ message
 static i64_t fmt_underline(obj_p *dst, i64_t gutter_width, u16_t start_col, u16_t end_col, lit_p msg, i32_t msg_len) {
     i64_t n = 0;
-    u16_t i;
     (void)end_col;
 
     // Line with ▲ pointing up
     n += str_fmt_into(dst, NO_LIMIT, "%s", GRAY);
-    for (i = 0; i < gutter_width; i++)
-        n += str_fmt_into(dst, NO_LIMIT, " ");
+    n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)gutter_width, "");
     n += str_fmt_into(dst, NO_LIMIT, " │%s ", RESET);
-    for (i = 0; i < start_col; i++)
-        n += str_fmt_into(dst, NO_LIMIT, " ");
+    n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)start_col, "");
     n += str_fmt_into(dst, NO_LIMIT, "%s▲%s\n", MAGENTA, RESET);
 
     // Line with ╰─ message (rounded to match frame)
     n += str_fmt_into(dst, NO_LIMIT, "%s", GRAY);
-    for (i = 0; i < gutter_width; i++)
-        n += str_fmt_into(dst, NO_LIMIT, " ");
+    n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)gutter_width, "");
     n += str_fmt_into(dst, NO_LIMIT, " │%s ", RESET);
-    for (i = 0; i < start_col; i++)
-        n += str_fmt_into(dst, NO_LIMIT, " ");
+    n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)start_col, "");
     n += str_fmt_into(dst, NO_LIMIT, "%s╰─%s", MAGENTA, RESET);
     if (msg_len > 0)
         n += str_fmt_into(dst, NO_LIMIT, " %s%s%s", TOMATO, msg, RESET);
@@ -509,7 +504,6 @@ i64_t error_frame_fmt_into(obj_p *dst, obj_p obj, str_p msg, i32_t msg_len, b8_t
     u32_t first_line_len = 0;
     lit_p last_line_start = NULL;
     u32_t last_line_len = 0;
-    u16_t i;
 
     // First pass: find the first and last lines of the span
     start = source;
@@ -553,10 +547,15 @@ i64_t error_frame_fmt_into(obj_p *dst, obj_p obj, str_p msg, i32_t msg_len, b8_t
 
         // For single-line spans, highlight the span portion
         if (!is_multiline && is_first) {
-            u16_t span_len = (span.end_column >= span.start_column) ? (span.end_column - span.start_column + 1) : 1;
-            u16_t before_len = span.start_column;
-            u16_t after_start = span.start_column + span_len;
-            u16_t after_len = (first_line_len > after_start) ? (first_line_len - after_start) : 0;
+            // Columns may lie past the line: it is not terminated, so keep within it
+            u32_t before_len = (span.start_column < first_line_len) ? span.start_column : first_line_len;
+            u32_t span_len = (span.end_column >= span.start_column) ? (span.end_column - span.start_column + 1) : 1;
+            u32_t after_start, after_len;
+
+            if (span_len > first_line_len - before_len)
+                span_len = first_line_len - before_len;
+            after_start = before_len + span_len;
+            after_len = first_line_len - after_start;
 
             // Before span (dim)
             if (before_len > 0)
@@ -575,10 +574,15 @@ i64_t error_frame_fmt_into(obj_p *dst, obj_p obj, str_p msg, i32_t msg_len, b8_t
             n += str_fmt_into(dst, NO_LIMIT, "%s%.*s%s\n", WHITE, (int)first_line_len, first_line_start, RESET);
         } else {
             // Secondary frame - just highlight the span in color, no arrow
-            u16_t span_len = (span.end_column >= span.start_column) ? (span.end_column - span.start_column + 1) : 1;
-            u16_t before_len = span.start_column;
-            u16_t after_start = span.start_column + span_len;
-            u16_t after_len = (first_line_len > after_start) ? (first_line_len - after_start) : 0;
+            // Columns may lie past the line: it is not terminated, so keep within it
+            u32_t before_len = (span.start_column < first_line_len) ? span.start_column : first_line_len;
+            u32_t span_len = (span.end_column >= span.start_column) ? (span.end_column - span.start_column + 1) : 1;
+            u32_t after_start, after_len;
+
+            if (span_len > first_line_len - before_len)
+                span_len = first_line_len - before_len;
+            after_start = before_len + span_len;
+            after_len = first_line_len - after_start;
 
             // Before span (dim)
             if (before_len > 0)
@@ -596,20 +600,16 @@ i64_t error_frame_fmt_into(obj_p *dst, obj_p obj, str_p msg, i32_t msg_len, b8_t
     // For multiline: show dots, last line, then ▲ and └─ message
     if (is_multiline && last_line_start) {
         // Show vertical dots
-        for (i = 0; i < gutter_width; i++)
-            n += str_fmt_into(dst, NO_LIMIT, " ");
+        n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)gutter_width, "");
         n += str_fmt_into(dst, NO_LIMIT, " %s·%s ", GRAY, RESET);
-        for (i = 0; i < span.start_column; i++)
-            n += str_fmt_into(dst, NO_LIMIT, " ");
+        n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)span.start_column, "");
         n += str_fmt_into(dst, NO_LIMIT, "%s·%s\n", MAGENTA, RESET);
 
         // Show more dots if there are many lines in between
         if (span.end_line > span.start_line + 2) {
-            for (i = 0; i < gutter_width; i++)
-                n += str_fmt_into(dst, NO_LIMIT, " ");
+            n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)gutter_width, "");
             n += str_fmt_into(dst, NO_LIMIT, " %s·%s ", GRAY, RESET);
-            for (i = 0; i < span.start_column; i++)
-                n += str_fmt_into(dst, NO_LIMIT, " ");
+            n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)span.start_column, "");
             n += str_fmt_into(dst, NO_LIMIT, "%s·%s\n", MAGENTA, RESET);
         }
 
@@ -625,19 +625,15 @@ i64_t error_frame_fmt_into(obj_p *dst, obj_p obj, str_p msg, i32_t msg_len, b8_t
         }
 
         // ▲ pointing up to last line
-        for (i = 0; i < gutter_width; i++)
-            n += str_fmt_into(dst, NO_LIMIT, " ");
+        n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)gutter_width, "");
         n += str_fmt_into(dst, NO_LIMIT, " %s│%s ", GRAY, RESET);
-        for (i = 0; i < span.start_column; i++)
-            n += str_fmt_into(dst, NO_LIMIT, " ");
+        n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)span.start_column, "");
         n += str_fmt_into(dst, NO_LIMIT, "%s▲%s\n", MAGENTA, RESET);
 
         // ╰─ message (rounded to match frame)
-        for (i = 0; i < gutter_width; i++)
-            n += str_fmt_into(dst, NO_LIMIT, " ");
+        n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)gutter_width, "");
         n += str_fmt_into(dst, NO_LIMIT, " %s│%s ", GRAY, RESET);
-        for (i = 0; i < span.start_column; i++)
-            n += str_fmt_into(dst, NO_LIMIT, " ");
+        n += str_fmt_into(dst, NO_LIMIT, "%*s", (int)span.start_column, "");
         n += str_fmt_into(dst, NO_LIMIT, "%s╰─%s", MAGENTA, RESET);
         if (msg_len > 0)
             n += str_fmt_into(dst, NO_LIMIT, " %s%s%s", TOMATO, msg, RESET);
diff --git a/core/parse.c b/core/parse.c
index 8fbb51d..d34b928 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -110,7 +110,10 @@ b8_t is_at(obj_p token, c8_t c) { return token && token->type == TYPE_TOKEN && t
 
 b8_t is_at_term(obj_p token) { return token && token->type == TYPE_TOKEN && at_term(token->c8); }
 
-i8_t shift(parser_t *parser, i32_t num) {
+// Character of the source text at a given position, the text needs not to be terminated
+static c8_t char_at(parser_t *parser, lit_p pos) { return pos < parser->input + parser->input_len ? *pos : '\0'; }
+
+i8_t shift(parser_t *parser, i64_t num) {
     i8_t res;
 
     if (at_eof(parser))
@@ -138,10 +141,10 @@ obj_p parse_0Nx(parser_t *parser) {
     span_t span;
     obj_p res;
 
-    if (*current == '0' && *(current + 1) == 'N') {
+    if (char_at(parser, current) == '0' && char_at(parser, current + 1) == 'N') {
         span = span_start(parser);
 
-        switch (*(current + 2)) {
+        switch (char_at(parser, current + 2)) {
             case '0':
                 res = NULL_OBJ;
                 shift(parser, 3);
@@ -204,54 +207,54 @@ obj_p parse_time(parser_t *parser) {
     str_p current = parser->current;
     span_t span = span_start(parser);
 
-    if (*current == '-') {
+    if (char_at(parser, current) == '-') {
         tm.sign = -1;
         current++;
     }
 
-    if (is_digit(*current) && is_digit(*(current + 1))) {
+    if (is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         tm.hours = (*current - '0') * 10 + (*(current + 1) - '0');
         current += 2;
     } else
         return PARSE_ADVANCE;
 
-    if (*current != ':')
+    if (char_at(parser, current) != ':')
         return PARSE_ADVANCE;
 
     current++;
 
-    if (is_digit(*current) && is_digit(*(current + 1))) {
+    if (is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         tm.mins = (*current - '0') * 10 + (*(current + 1) - '0');
         current += 2;
     } else
         return PARSE_ADVANCE;
 
-    if (*current != ':')
+    if (char_at(parser, current) != ':')
         return PARSE_ADVANCE;
 
     current++;
 
-    if (is_digit(*current) && is_digit(*(current + 1))) {
+    if (is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         tm.secs = (*current - '0') * 10 + (*(current + 1) - '0');
         current += 2;
     } else
         return PARSE_ADVANCE;
 
-    if (*current == '.') {
+    if (char_at(parser, current) == '.') {
         current++;
 
-        if (!is_digit(*current))
+        if (!is_digit(char_at(parser, current)))
             return PARSE_ADVANCE;
 
         // Parse 1-3 digits for milliseconds (no scaling, .1 = 1ms)
         tm.msecs = (*current - '0');
         current++;
 
-        if (is_digit(*current)) {
+        if (is_digit(char_at(parser, current))) {
             tm.msecs = tm.msecs * 10 + (*current - '0');
             current++;
 
-            if (is_digit(*current)) {
+            if (is_digit(char_at(parser, current))) {
                 tm.msecs = tm.msecs * 10 + (*current - '0');
                 current++;
             }
@@ -266,7 +269,7 @@ obj_p parse_time(parser_t *parser) {
 
 obj_p parse_timestamp(parser_t *parser) {
     const char *end, *current = parser->current;
-    u32_t nanos;
+    u64_t nanos;
     datestruct_t dt = {.null = B8_FALSE, .year = 0, .month = 0, .day = 0};
     timestamp_t ts = {.null = B8_FALSE, .year = 0, .month = 0, .day = 0, .hours = 0, .mins = 0, .secs = 0, .nanos = 0};
     obj_p res;
@@ -277,7 +280,7 @@ obj_p parse_timestamp(parser_t *parser) {
         return PARSE_ADVANCE;
 
     // parse year
-    if (is_digit(*current) && is_digit(*(current + 1)) && is_digit(*(current + 2)) && is_digit(*(current + 3))) {
+    if (is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1)) && is_digit(char_at(parser, current + 2)) && is_digit(char_at(parser, current + 3))) {
         ts.year = (*current - '0') * 1000 + (*(current + 1) - '0') * 100 + (*(current + 2) - '0') * 10 +
                   (*(current + 3) - '0');
         current += 4;
@@ -285,13 +288,13 @@ obj_p parse_timestamp(parser_t *parser) {
         return PARSE_ADVANCE;
 
     // skip dot
-    if (*current != '.')
+    if (char_at(parser, current) != '.')
         return PARSE_ADVANCE;
 
     current++;
 
     // parse month
-    if (remaining >= 6 && is_digit(*current) && is_digit(*(current + 1))) {
+    if (remaining >= 6 && is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         ts.month = (*current - '0') * 10 + (*(current + 1) - '0');
 
         current += 2;
@@ -306,13 +309,13 @@ obj_p parse_timestamp(parser_t *parser) {
         return PARSE_ADVANCE;
 
     // skip dot
-    if (*current != '.')
+    if (char_at(parser, current) != '.')
         return PARSE_ADVANCE;
 
     current++;
 
     // parse day
-    if (remaining >= 8 && is_digit(*current) && is_digit(*(current + 1))) {
+    if (remaining >= 8 && is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         ts.day = (*current - '0') * 10 + (*(current + 1) - '0');
 
         current += 2;
@@ -324,10 +327,10 @@ obj_p parse_timestamp(parser_t *parser) {
             return parse_error(parser, parser->count++, EC_DOMAIN);
         }
     } else
-        return NULL_OBJ;
+        return PARSE_ADVANCE;
 
     // just date passed
-    if (*current != 'D') {
+    if (char_at(parser, current) != 'D') {
         shift(parser, current - parser->current);
         dt.year = ts.year;
         dt.month = ts.month;
@@ -343,7 +346,7 @@ obj_p parse_timestamp(parser_t *parser) {
     current++;
 
     // parse hour
-    if (remaining >= 11 && is_digit(*current) && is_digit(*(current + 1))) {
+    if (remaining >= 11 && is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         ts.hours = (*current - '0') * 10 + (*(current + 1) - '0');
 
         current += 2;
@@ -358,13 +361,13 @@ obj_p parse_timestamp(parser_t *parser) {
         return PARSE_ADVANCE;
 
     // skip colon
-    if (*current != ':')
+    if (char_at(parser, current) != ':')
         return PARSE_ADVANCE;
 
     current++;
 
     // parse minute
-    if (remaining >= 14 && is_digit(*current) && is_digit(*(current + 1))) {
+    if (remaining >= 14 && is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         ts.mins = (*current - '0') * 10 + (*(current + 1) - '0');
 
         current += 2;
@@ -379,13 +382,13 @@ obj_p parse_timestamp(parser_t *parser) {
         return PARSE_ADVANCE;
 
     // skip colon
-    if (*current != ':')
+    if (char_at(parser, current) != ':')
         return PARSE_ADVANCE;
 
     current++;
 
     // parse second
-    if (remaining >= 17 && is_digit(*current) && is_digit(*(current + 1))) {
+    if (remaining >= 17 && is_digit(char_at(parser, current)) && is_digit(char_at(parser, current + 1))) {
         ts.secs = (*current - '0') * 10 + (*(current + 1) - '0');
 
         current += 2;
@@ -400,15 +403,20 @@ obj_p parse_timestamp(parser_t *parser) {
         return PARSE_ADVANCE;
 
     // skip dot
-    if (*current != '.')
+    if (char_at(parser, current) != '.')
         return PARSE_ADVANCE;
 
     current++;
 
     // parse nanos
-    nanos = strtoul(current, (char **)&end, 10);
-    if (end > parser->input + parser->input_len) {
-        end = parser->input + parser->input_len;
+    for (end = current, nanos = 0; is_digit(char_at(parser, end)); end++) {
+        nanos = nanos * 10 + (*end - '0');
+        if (nanos > 999999999) {
+            span.start_column = current - parser->current;
+            span.end_column += end - parser->current;
+            nfo_insert(parser->nfo, parser->count, span);
+            return parse_error(parser, parser->count++, EC_DOMAIN);
+        }
     }
 
     if (end == current)
@@ -428,7 +436,7 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
     obj_p res;
 
     // Check first
-    switch (*current) {
+    switch (char_at(parser, current)) {
         case 'x':
         case 'h':
         case 'i':
@@ -447,7 +455,7 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
             break;
     }
 
-    switch (*current++) {
+    switch (char_at(parser, current++)) {
         case 'x':
             if (num->i64 < 0 || num->i64 > 255) {
                 drop_obj(num);
@@ -535,7 +543,7 @@ obj_p parse_number(parser_t *parser) {
 
     r = i64_from_str(parser->current, remaining, &num_i64);
     // if we parsed a number, and the next character is not a dot, then we can specify the number
-    if (r > 0 && *(parser->current + r) != '.')
+    if (r > 0 && char_at(parser, parser->current + r) != '.')
         return specify_number(parser, parser->current + r, span, i64(num_i64));
 
     // try f64 instead
@@ -556,7 +564,7 @@ obj_p parse_char(parser_t *parser) {
     c8_t ch;
 
     // Handle empty quoted symbol (single quote)
-    if (before_eof(parser) || at_term(*pos)) {
+    if (at_term(char_at(parser, pos))) {
         // Return a null symbol (0Ns)
         shift(parser, 1);  // Skip the opening quote
         span_extend(parser, &span);
@@ -569,9 +577,9 @@ obj_p parse_char(parser_t *parser) {
     ch = '\0';
 
     // Check for escape sequences
-    if (*pos == '\\') {
+    if (char_at(parser, pos) == '\\') {
         pos++;  // Skip backslash
-        switch (*pos) {
+        switch (char_at(parser, pos)) {
             case 'n':
                 ch = '\n';
                 pos++;
@@ -600,15 +608,11 @@ obj_p parse_char(parser_t *parser) {
             case '1':
             case '2':
             case '3':
-            case '4':
-            case '5':
-            case '6':
-            case '7':
                 // Parse octal escape sequence \xxx
                 ch = *pos - '0';
                 pos++;
                 for (i = 0; i < 2; i++) {
-                    if (at_eof(parser) || !is_digit(*pos) || *pos > '7' || *pos < '0') {
+                    if (char_at(parser, pos) < '0' || char_at(parser, pos) > '7') {
                         span.end_column += (pos - parser->current);
                         nfo_insert(parser->nfo, parser->count, span);
                         return parse_error(parser, parser->count++, EC_DOMAIN);
@@ -628,7 +632,7 @@ obj_p parse_char(parser_t *parser) {
     }
 
     // Check if the character is followed by a closing quote
-    if (*pos == '\'') {
+    if (char_at(parser, pos) == '\'') {
         pos++;
         res = c8(ch);
         shift(parser, pos - parser->current);  // Skip quotes, backslash, and escape sequence
@@ -641,7 +645,7 @@ obj_p parse_char(parser_t *parser) {
     for (; (pos < parser->input + parser->input_len) && (is_alphanum(*pos) || is_op(*pos)); pos++)
         ;
 
-    if (*pos == '\'') {
+    if (char_at(parser, pos) == '\'') {
         span.end_column += (pos - parser->current);
         nfo_insert(parser->nfo, parser->count, span);
         return parse_error(parser, parser->count++, EC_DOMAIN);
@@ -661,15 +665,16 @@ obj_p parse_char(parser_t *parser) {
 obj_p parse_string(parser_t *parser) {
     span_t span = span_start(parser);
     str_p pos = parser->current + 1;  // skip '"'
-    i32_t i, len = 0;
+    i64_t i, len = 0;
     obj_p str, err;
     c8_t lf = '\n', cr = '\r', tb = '\t', bs = '\\', octal_val;
 
     str = C8(0);
 
-    while (!at_eof(parser)) {
+    while (char_at(parser, pos) != '\0') {
         if (*pos == '\\') {
-            switch (*++pos) {
+            pos++;
+            switch (char_at(parser, pos)) {
                 case '\\':
                     push_raw(&str, &bs);
                     pos++;
@@ -693,13 +698,9 @@ obj_p parse_string(parser_t *parser) {
                 case '1':
                 case '2':
                 case '3':
-                case '4':
-                case '5':
-                case '6':
-                case '7':
                     // Parse octal escape sequence \xxx
-                    for (i = 0; i < 3; i++) {
-                        if (at_eof(parser) || !is_digit(*pos) || *pos > '7' || *pos < '0') {
+                    for (i = 0, octal_val = 0; i < 3; i++) {
+                        if (char_at(parser, pos) < '0' || char_at(parser, pos) > '7') {
                             drop_obj(str);
                             span.end_column += (pos - parser->current);
                             nfo_insert(parser->nfo, parser->count, span);
@@ -726,7 +727,7 @@ obj_p parse_string(parser_t *parser) {
         push_raw(&str, pos++);
     }
 
-    if ((*pos++) != '"') {
+    if (char_at(parser, pos++) != '"') {
         drop_obj(str);
         span.end_column += (pos - parser->current);
         nfo_insert(parser->nfo, parser->count, span);
@@ -749,9 +750,14 @@ obj_p parse_symbol(parser_t *parser) {
     obj_p res = NULL_OBJ;
     span_t span = span_start(parser);
     i64_t id;
-    i64_t remaining = parser->input_len - (pos - parser->input);
+    lit_p end = pos;
+
+    // Skip first char and proceed until the end of the symbol
+    do {
+        end++;
+    } while (is_alphanum(char_at(parser, end)) || is_op(char_at(parser, end)));
 
-    if (remaining >= 4 && strncmp(pos, "true", 4) == 0) {
+    if (end - pos == 4 && strncmp(pos, "true", 4) == 0) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = b8(B8_TRUE);
@@ -759,7 +765,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 5 && strncmp(pos, "false", 5) == 0) {
+    if (end - pos == 5 && strncmp(pos, "false", 5) == 0) {
         shift(parser, 5);
         span_extend(parser, &span);
         res = b8(B8_FALSE);
@@ -767,7 +773,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 4 && strncmp(pos, "null", 4) == 0) {
+    if (end - pos == 4 && strncmp(pos, "null", 4) == 0) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = NULL_OBJ;
@@ -775,12 +781,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    // Skip first char and proceed until the end of the symbol
-    do {
-        pos++;
-    } while (pos < parser->input + parser->input_len && (is_alphanum(*pos) || is_op(*pos)));
-
-    id = symbols_intern(parser->current, pos - parser->current);
+    id = symbols_intern(pos, end - pos);
 
     if (parser->replace_symbols)
         res = env_get_internal_function_by_id(id);
@@ -788,7 +789,7 @@ obj_p parse_symbol(parser_t *parser) {
     if (res == NULL_OBJ)
         res = symboli64(id);
 
-    shift(parser, pos - parser->current);
+    shift(parser, end - pos);
     span_extend(parser, &span);
     nfo_insert(parser->nfo, (i64_t)res, span);
 
@@ -955,6 +956,9 @@ obj_p parse_list(parser_t *parser) {
     shift(parser, 1);  // skip '('
     tok = parser_advance(parser);
 
+    if (IS_ERR(tok))
+        return tok;
+
     // parse lambda
     if (tok->type == -TYPE_SYMBOL && tok->i64 == SYMBOL_FN) {
         drop_obj(tok);
@@ -982,6 +986,12 @@ obj_p parse_list(parser_t *parser) {
 
         tok = parser_advance(parser);
 
+        if (IS_ERR(tok)) {
+            drop_obj(args);
+            drop_obj(body);
+            return tok;
+        }
+
         if (!is_at(tok, ')')) {
             span_extend(parser, &span);
             nfo_insert(parser->nfo, parser->count, span);
@@ -1160,6 +1170,22 @@ nil_t skip_whitespaces(parser_t *parser) {
     }
 }
 
+// Lists, vectors and dictionaries, up to PARSE_MAX_DEPTH levels of them
+static obj_p parse_nested(parser_t *parser, obj_p (*parse_fn)(parser_t *)) {
+    obj_p res;
+
+    if (parser->depth >= PARSE_MAX_DEPTH) {
+        nfo_insert(parser->nfo, parser->count, span_start(parser));
+        return parse_error(parser, parser->count++, EC_LIMIT);
+    }
+
+    parser->depth++;
+    res = parse_fn(parser);
+    parser->depth--;
+
+    return res;
+}
+
 obj_p parser_advance(parser_t *parser) {
     obj_p tok = NULL_OBJ, err = NULL_OBJ;
 
@@ -1174,15 +1200,15 @@ obj_p parser_advance(parser_t *parser) {
     }
 
     if (*parser->current == '[')
-        return parse_vector(parser);
+        return parse_nested(parser, parse_vector);
 
     if (*parser->current == '(')
-        return parse_list(parser);
+        return parse_nested(parser, parse_list);
 
     if (*parser->current == '{')
-        return parse_dict(parser);
+        return parse_nested(parser, parse_dict);
 
-    if (((*parser->current) == '-' && is_digit(*(parser->current + 1))) || is_digit(*parser->current)) {
+    if (((*parser->current) == '-' && is_digit(char_at(parser, parser->current + 1))) || is_digit(*parser->current)) {
         tok = parse_0Nx(parser);
         if (tok != PARSE_ADVANCE)
             return tok;
@@ -1195,11 +1221,7 @@ obj_p parser_advance(parser_t *parser) {
         if (tok != PARSE_ADVANCE)
             return tok;
 
-        tok = parse_number(parser);
-        if (at_eof(parser))
-            return tok;
-
-        return tok;
+        return parse_number(parser);
     }
 
     if (*parser->current == '\'')
@@ -1225,7 +1247,7 @@ obj_p parser_advance(parser_t *parser) {
 }
 
 obj_p parse_do(parser_t *parser) {
-    obj_p tok, car = PARSE_ADVANCE, lst = NULL_OBJ;
+    obj_p tok, car = NULL, lst = NULL_OBJ;
 
     while (!at_eof(parser)) {
         tok = parser_advance(parser);
@@ -1233,7 +1255,8 @@ obj_p parse_do(parser_t *parser) {
         if (IS_ERR(tok)) {
             if (lst == NULL_OBJ) {
                 // Only free car if it's not part of a list
-                drop_obj(car);
+                if (car != NULL)
+                    drop_obj(car);
             } else {
                 // If we have a list, just free the list (which will free car)
                 drop_obj(lst);
@@ -1251,7 +1274,7 @@ obj_p parse_do(parser_t *parser) {
             break;
         }
 
-        if (car == PARSE_ADVANCE)
+        if (car == NULL)
             car = tok;
         else if (lst == NULL_OBJ)
             lst = vn_list(3, env_get_internal_function_by_id(SYMBOL_DO), car, tok);
@@ -1259,6 +1282,9 @@ obj_p parse_do(parser_t *parser) {
             push_obj(&lst, tok);
     }
 
+    if (car == NULL)
+        return NULL_OBJ;
+
     return lst != NULL_OBJ ? lst : car;
 }
 
@@ -1274,12 +1300,13 @@ obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
         .input_len = input_len,
         .line = 0,
         .column = 0,
+        .depth = 0,
         .replace_symbols = B8_TRUE,
     };
 
     // Skip shebang
-    if (*parser.current == '#' && *(parser.current + 1) == '!') {
-        while (*parser.current != '\n' && !at_eof(&parser))
+    if (char_at(&parser, parser.current) == '#' && char_at(&parser, parser.current + 1) == '!') {
+        while (!at_eof(&parser) && *parser.current != '\n')
             parser.current++;
 
         parser.line++;
diff --git a/core/parse.h b/core/parse.h
index 5c34bbb..c1af7af 100644
--- a/core/parse.h
+++ b/core/parse.h
@@ -27,6 +27,9 @@
 #include "rayforce.h"
 #include "nfo.h"
 
+// Deepest nesting of brackets in a source text
+#define PARSE_MAX_DEPTH 1024
+
 /*
  * Parser structure
  */
@@ -38,6 +41,7 @@ typedef struct parser_t {
     i64_t input_len;       // length of input string
     i64_t line;            // current line
     i64_t column;          // current column
+    i64_t depth;           // nesting of lists, vectors and dictionaries around the current character
     b8_t replace_symbols;  // replace symbols if they are internal functions
 } parser_t;
 
-- 
2.43.0


From 4dff819a3184af0dec3796176912cbc35b1eb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 61/98] fix: evaluation stays within its objects: joins,
 adverbs, enumerations, take/cut/rand, group by columns that cannot be hashed

---
 core/aggr.c     | 275 ++++++------------------
 core/compose.c  |  19 ++
 core/format.c   |  12 +-
 core/index.c    |  56 +++--
 core/items.c    | 145 ++++++++++---
 core/iter.c     | 553 ++++++++++++++++++------------------------------
 core/join.c     | 368 ++++++++++++++++++++------------
 core/order.c    |  72 ++++++-
 core/parse.c    |   4 +
 core/rayforce.c |  21 +-
 10 files changed, 774 insertions(+), 751 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 3562157..561ae3c 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -36,13 +36,24 @@
 #include "pool.h"
 #include "order.h"
 
-i64_t indexr_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
+static inline i64_t window_time(obj_p col, i64_t i) {
+    switch (col->type) {
+        case TYPE_I64:
+        case TYPE_TIMESTAMP:
+            return AS_I64(col)[i];
+        default:
+            return AS_I32(col)[i];
+    }
+}
+
+// Last of the rows [first, last] with the time not above the value, the first one if there is no such
+static i64_t indexr_bin_window(i64_t val, obj_p times, i64_t first, i64_t last) {
     i64_t left, right, mid, idx;
-    left = 0, right = len - 1, idx = 0;
-    vals += offset;
+
+    left = first, right = last, idx = first;
     while (left <= right) {
         mid = left + (right - left) / 2;
-        if (vals[mid] <= val) {
+        if (window_time(times, mid) <= val) {
             idx = mid;
             left = mid + 1;
         } else {
@@ -50,16 +61,17 @@ i64_t indexr_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
         }
     }
 
-    return idx + offset;
+    return idx;
 }
 
-i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
+// First of the rows [first, last] with the time not below the value, the first one if there is no such
+static i64_t indexl_bin_window(i64_t val, obj_p times, i64_t first, i64_t last) {
     i64_t left, right, mid, idx;
-    left = 0, right = len - 1, idx = 0;
-    vals += offset;
+
+    left = first, right = last, idx = first;
     while (left <= right) {
         mid = left + (right - left) / 2;
-        if (vals[mid] < val) {
+        if (window_time(times, mid) < val) {
             left = mid + 1;
         } else {
             idx = mid;
@@ -67,14 +79,32 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
         }
     }
 
-    return idx + offset;
+    return idx;
+}
+
+// Rows [from, to] of the i-th window, returns false if there are none
+static b8_t window_rows(obj_p index, i64_t i, i64_t *from, i64_t *to) {
+    i64_t lo, hi;
+    b8_t inner = index_group_meta(index)->i64 == 1;
+    obj_p times = AS_LIST(index)[3], rows = AS_LIST(AS_LIST(index)[5])[i];
+
+    if (rows == NULL_OBJ)
+        return B8_FALSE;
+
+    lo = window_time(AS_LIST(AS_LIST(index)[4])[0], i);
+    hi = window_time(AS_LIST(AS_LIST(index)[4])[1], i);
+
+    *from = inner ? indexl_bin_window(lo, times, AS_I64(rows)[0], AS_I64(rows)[1])
+                  : indexr_bin_window(lo, times, AS_I64(rows)[0], AS_I64(rows)[1]);
+    *to = indexr_bin_window(hi, times, AS_I64(rows)[0], AS_I64(rows)[1]);
+
+    return window_time(times, *from) <= hi && (!inner || window_time(times, *to) >= lo);
 }
 
 #define AGGR_ITER(Index, Len, Offset, Val, Res, Incoerce, Outcoerse, Ini, Aggr, Null)                  \
     ({                                                                                                 \
-        i64_t $i, $x, $y, $n, $o, $li, $ri, $fi, $ti, $kl, $kr, $it;                                   \
+        i64_t $i, $x, $y, $n, $o, $li, $ri;                                                            \
         i64_t *group_ids, *source, *filter, shift;                                                     \
-        obj_p $rn;                                                                                     \
         index_type_t index_type;                                                                       \
         Incoerce##_t *$in;                                                                             \
         Outcoerse##_t *$out;                                                                           \
@@ -131,24 +161,9 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
                 }                                                                                      \
                 break;                                                                                 \
             case INDEX_TYPE_WINDOW:                                                                    \
-                $it = index_group_meta(Index)->i64;                                                    \
                 for ($i = Offset; $i < Offset + Len; ++$i) {                                           \
                     $y = $i;                                                                           \
-                    $rn = AS_LIST(AS_LIST(Index)[5])[$i];                                              \
-                    if ($rn != NULL_OBJ) {                                                             \
-                        $fi = AS_I64($rn)[0];                                                          \
-                        $ti = AS_I64($rn)[1];                                                          \
-                        $kl = AS_I32(AS_LIST(AS_LIST(Index)[4])[0])[$i];                               \
-                        $kr = AS_I32(AS_LIST(AS_LIST(Index)[4])[1])[$i];                               \
-                        if ($it == 0) {                                                                \
-                            $li = indexr_bin_i32_($kl, AS_I32(AS_LIST(Index)[3]), $fi, $ti - $fi + 1); \
-                        } else {                                                                       \
-                            $li = indexl_bin_i32_($kl, AS_I32(AS_LIST(Index)[3]), $fi, $ti - $fi + 1); \
-                        }                                                                              \
-                        $ri = indexr_bin_i32_($kr, AS_I32(AS_LIST(Index)[3]), $fi, $ti - $fi + 1);     \
-                    }                                                                                  \
-                    if ($rn == NULL_OBJ || AS_I32(AS_LIST(Index)[3])[$li] > $kr ||                     \
-                        ($it == 1 && AS_I32(AS_LIST(Index)[3])[$ri] < $kl)) {                          \
+                    if (!window_rows(Index, $i, &$li, &$ri)) {                                         \
                         Null;                                                                          \
                     } else {                                                                           \
                         for ($x = $li; $x <= $ri; ++$x) {                                              \
@@ -617,38 +632,6 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 res->type = val->type;
                 return res;
             }
-            case TYPE_ENUM: {
-                i64_t *in = AS_I64(val);
-                res = I64(n);
-                i64_t *out = AS_I64(res);
-                if (filter_ids) {
-                    for (i = 0; i < n; i++)
-                        out[i] = in[filter_ids[first_ids[i]]];
-                } else {
-                    for (i = 0; i < n; i++)
-                        out[i] = in[first_ids[i]];
-                }
-                // Convert enum indices to symbol values
-                ek = ray_key(val);
-                sym = ray_get(ek);
-                drop_obj(ek);
-                if (IS_ERR(sym)) {
-                    drop_obj(res);
-                    return sym;
-                }
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {
-                    drop_obj(sym);
-                    drop_obj(res);
-                    return err_type(0, 0, 0, 0);
-                }
-                xe = AS_SYMBOL(sym);
-                xo = AS_SYMBOL(res);
-                for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
-                drop_obj(sym);
-                res->type = TYPE_SYMBOL;
-                return res;
-            }
             case TYPE_F64: {
                 f64_t *in = AS_F64(val);
                 res = F64(n);
@@ -1580,26 +1563,10 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -1674,26 +1641,10 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -1770,26 +1721,10 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -1864,26 +1799,10 @@ obj_p aggr_avg_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             co[y] = 0;
                         } else {
@@ -2002,6 +1921,9 @@ static obj_p aggr_map_avg_window(obj_p val, obj_p index) {
     n = pool_get_executors_count(pool);
     res = vn_list(2, F64(out_len), I64(out_len));
 
+    if (n > group_count)
+        n = (group_count > 0) ? group_count : 1;
+
     if (n == 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
@@ -2012,9 +1934,6 @@ static obj_p aggr_map_avg_window(obj_p val, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
@@ -2430,26 +2349,10 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
@@ -2537,26 +2440,10 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
@@ -2644,26 +2531,10 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
@@ -2753,26 +2624,10 @@ obj_p aggr_dev_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                     }
                     break;
                 case INDEX_TYPE_WINDOW: {
-                    i64_t li, ri, fi, ti, kl, kr, it;
-                    obj_p rn;
-                    it = index_group_meta(index)->i64;
+                    i64_t li, ri;
                     for (i = offset; i < offset + len; ++i) {
                         y = i;
-                        rn = AS_LIST(AS_LIST(index)[5])[i];
-                        if (rn != NULL_OBJ) {
-                            fi = AS_I64(rn)[0];
-                            ti = AS_I64(rn)[1];
-                            kl = AS_I32(AS_LIST(AS_LIST(index)[4])[0])[i];
-                            kr = AS_I32(AS_LIST(AS_LIST(index)[4])[1])[i];
-                            if (it == 0) {
-                                li = indexr_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            } else {
-                                li = indexl_bin_i32_(kl, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                            }
-                            ri = indexr_bin_i32_(kr, AS_I32(AS_LIST(index)[3]), fi, ti - fi + 1);
-                        }
-                        if (rn == NULL_OBJ || AS_I32(AS_LIST(index)[3])[li] > kr ||
-                            (it == 1 && AS_I32(AS_LIST(index)[3])[ri] < kl)) {
+                        if (!window_rows(index, i, &li, &ri)) {
                             so[y] = NULL_F64;
                             sqo[y] = NULL_F64;
                             co[y] = 0;
@@ -2893,6 +2748,9 @@ static obj_p aggr_map_dev_window(obj_p val, obj_p index) {
     n = pool_get_executors_count(pool);
     res = vn_list(3, F64(out_len), F64(out_len), I64(out_len));
 
+    if (n > group_count)
+        n = (group_count > 0) ? group_count : 1;
+
     if (n == 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
@@ -2903,9 +2761,6 @@ static obj_p aggr_map_dev_window(obj_p val, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
diff --git a/core/compose.c b/core/compose.c
index cc82976..0c4824b 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -379,6 +379,9 @@ obj_p ray_guid(obj_p x) {
         case -TYPE_I64:
             count = x->i64;
             vec = GUID(count);
+            if (IS_ERR(vec))
+                return vec;
+
             g = AS_GUID(vec);
 
             for (i = 0; i < count; i++)
@@ -481,6 +484,8 @@ obj_p ray_rand(obj_p x, obj_p y) {
                 return err_domain(0, 0);
 
             vec = I64(count);
+            if (IS_ERR(vec))
+                return vec;
 
             rand_ctx_t ctx = {AS_I64(vec), y->i64, ops_rand_u64()};
             pool_map(count, rand_worker, &ctx);
@@ -786,9 +791,19 @@ obj_p ray_concat(obj_p x, obj_p y) {
 
             dy = ray_at(kxy, iy);
             drop_obj(iy);
+            if (IS_ERR(dy)) {
+                drop_obj(vec);
+                return dy;
+            }
+
             kxy = ray_concat(kx, dy);
             drop_obj(dy);
 
+            if (IS_ERR(kxy)) {
+                drop_obj(vec);
+                return kxy;
+            }
+
             if (AS_LIST(x)[1]->type != TYPE_LIST && AS_LIST(x)[1]->type == AS_LIST(y)[1]->type)
                 vec = unify_list(&vec);
 
@@ -1270,6 +1285,7 @@ obj_p ray_row(obj_p x) {
         $res = LIST($yl);                                                                              \
         $last_id = __AS_##yt(y)[0];                                                                    \
         if ($last_id < 0 || $last_id >= $xl) {                                                         \
+            $res->len = 0;                                                                             \
             drop_obj($res);                                                                            \
             return err_index($last_id, $xl, 0, 0);                                                           \
         }                                                                                              \
@@ -1302,6 +1318,9 @@ obj_p ray_row(obj_p x) {
     })
 
 obj_p cut_vector(obj_p x, obj_p y) {
+    if (!IS_VECTOR(y))
+        return err_type(TYPE_I64, y->type, 0, 0);
+
     if (y->len == 0)
         return NULL_OBJ;
 
diff --git a/core/format.c b/core/format.c
index 70e8582..7001290 100644
--- a/core/format.c
+++ b/core/format.c
@@ -931,13 +931,17 @@ i64_t enum_fmt_into(obj_p *dst, i64_t indent, i64_t limit, obj_p obj) {
     if (IS_ERR(s))
         return error_fmt_into(dst, limit, s);
 
-    if (ENUM_VAL(obj)->len >= TABLE_MAX_HEIGHT) {
+    e = ray_value(obj);
+
+    // the first symbols of a long one
+    if (!IS_ERR(e) && e->len >= TABLE_MAX_HEIGHT) {
         limit = TABLE_MAX_HEIGHT;
         idx = i64(TABLE_MAX_HEIGHT);
-        e = ray_take(obj, idx);
+        obj_p t = ray_take(e, idx);
         drop_obj(idx);
-    } else
-        e = ray_value(obj);
+        drop_obj(e);
+        e = t;
+    }
 
     if (IS_ERR(e)) {
         drop_obj(s);
diff --git a/core/index.c b/core/index.c
index 79bff8b..1808970 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2778,6 +2778,13 @@ obj_p index_group_list(obj_p obj, obj_p filter) {
     if (ops_count(obj) == 1)
         return index_group(AS_LIST(obj)[0], filter);
 
+    // only columns of these types can be hashed
+    for (i = 0; i < obj->len; i++) {
+        v = AS_LIST(obj)[i]->type;
+        if (!IS_VECTOR(AS_LIST(obj)[i]) && v != TYPE_MAPLIST)
+            return err_type(TYPE_LIST, v, 0, 0);
+    }
+
     // If the list values range is small, use perfect hashing
     res = index_group_list_perfect(obj, filter);
     if (!is_null(res)) {
@@ -2920,6 +2927,29 @@ obj_p index_group_list(obj_p obj, obj_p filter) {
     #endif  // Old chunk-based approach
 }
 
+// Rows of such a column may be looked up directly
+static b8_t index_find_keys(obj_p col) {
+    if (col->len == 0)
+        return B8_FALSE;
+
+    switch (col->type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_I64:
+        case TYPE_SYMBOL:
+        case TYPE_TIMESTAMP:
+        case TYPE_F64:
+        case TYPE_GUID:
+            return B8_TRUE;
+        default:
+            return B8_FALSE;
+    }
+}
+
 obj_p index_left_join_obj(obj_p lcols, obj_p rcols, i64_t len) {
     i64_t i, ll, rl;
     obj_p ht, ids, hashes;
@@ -2927,10 +2957,9 @@ obj_p index_left_join_obj(obj_p lcols, obj_p rcols, i64_t len) {
     __index_list_ctx_t ctx;
 
     // one column join
-    if (len == 1)
-        return ray_find(rcols, lcols);
+    if (len == 1 && index_find_keys(AS_LIST(rcols)[0]))
+        return ray_find(AS_LIST(rcols)[0], AS_LIST(lcols)[0]);
 
-    // multiple columns join
     ll = ops_count(AS_LIST(lcols)[0]);
     rl = ops_count(AS_LIST(rcols)[0]);
     ht = ht_oa_create(rl, -1);
@@ -2970,9 +2999,9 @@ obj_p index_inner_join_obj(obj_p lcols, obj_p rcols, i64_t len) {
     i64_t idx;
     __index_list_ctx_t ctx;
 
-    if (len == 1) {
+    if (len == 1 && index_find_keys(AS_LIST(rcols)[0])) {
         // For single key: find matching indices from left in right
-        find_res = ray_find(rcols, lcols);
+        find_res = ray_find(AS_LIST(rcols)[0], AS_LIST(lcols)[0]);
         if (IS_ERR(find_res))
             return find_res;
 
@@ -3270,8 +3299,7 @@ obj_p index_asof_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol) {
     n = pool_split_by(pool, ll, 0);
 
     if (n == 1) {
-        __asof_ids_partial(&ctx, lxcol, rxcol, ht, ll, 0, ids);
-        goto clean;
+        v = __asof_ids_partial(&ctx, lxcol, rxcol, ht, ll, 0, ids);
     } else {
         pool_prepare(pool);
         chunk = ll / n;
@@ -3280,18 +3308,14 @@ obj_p index_asof_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol) {
             pool_add_task(pool, (raw_p)__asof_ids_partial, 7, &ctx, lxcol, rxcol, ht, chunk, i * chunk, ids);
         pool_add_task(pool, (raw_p)__asof_ids_partial, 7, &ctx, lxcol, rxcol, ht, ll - i * chunk, i * chunk, ids);
         v = pool_run(pool);
+    }
 
-        if (IS_ERR(v)) {
-            drop_obj(ids);
-            drop_obj(hashes);
-            drop_obj(ht);
-            return v;
-        }
-
+    if (IS_ERR(v)) {
+        drop_obj(ids);
+        ids = v;
+    } else
         drop_obj(v);
-    }
 
-clean:
     drop_obj(hashes);
     rl = AS_LIST(ht)[0]->len;
     for (i = 0; i < rl; i++)
diff --git a/core/items.c b/core/items.c
index 29f02cc..4943320 100644
--- a/core/items.c
+++ b/core/items.c
@@ -186,23 +186,33 @@ obj_p ray_at(obj_p x, obj_p y) {
             drop_obj(k);
 
             v = ENUM_VAL(x);
+            n = v->len;
+            // negative indices count from the end
+            i = (y->i64 < 0) ? y->i64 + n : y->i64;
 
-            if (y->i64 >= (i64_t)v->len) {
+            if (i < 0 || i >= n) {
                 drop_obj(s);
-                return err_index(y->i64, v->len, 0, 0);
+                return err_index(y->i64, n, 0, 0);
             }
 
+            i = AS_I64(v)[i];
+
             if (!s || IS_ERR(s) || s->type != TYPE_SYMBOL) {
                 drop_obj(s);
-                return i64(AS_I64(v)[y->i64]);
+                return i64(i);
             }
 
-            if (AS_I64(v)[y->i64] >= (i64_t)s->len) {
+            if (i == NULL_I64) {
                 drop_obj(s);
-                return err_index(AS_I64(v)[y->i64], s->len, 0, 0);
+                return null(TYPE_SYMBOL);
             }
 
-            res = at_idx(s, AS_I64(v)[y->i64]);
+            if (i < 0 || i >= (i64_t)s->len) {
+                drop_obj(s);
+                return err_index(i, n, 0, 0);
+            }
+
+            res = at_idx(s, i);
 
             drop_obj(s);
 
@@ -221,35 +231,33 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = s->len;
             yl = y->len;
             n = v->len;
+            res = (s->type == TYPE_SYMBOL) ? SYMBOL(yl) : I64(yl);
 
-            if (!s || s->type != TYPE_SYMBOL) {
-                res = I64(yl);
-
-                for (i = 0; i < yl; i++) {
-                    if (AS_I64(y)[i] >= (i64_t)n) {
-                        drop_obj(s);
-                        drop_obj(res);
-                        return err_index(AS_I64(y)[i], n, 0, 0);
-                    }
+            for (i = 0; i < yl; i++) {
+                j = AS_I64(y)[i];
+                if (j < 0)
+                    j += n;
 
-                    AS_I64(res)[i] = AS_I64(v)[AS_I64(y)[i]];
+                if (j < 0 || j >= n) {
+                    drop_obj(s);
+                    drop_obj(res);
+                    return err_index(AS_I64(y)[i], n, 0, 0);
                 }
 
-                drop_obj(s);
-
-                return res;
-            }
+                j = AS_I64(v)[j];
 
-            res = SYMBOL(yl);
+                if (s->type != TYPE_SYMBOL || j == NULL_I64) {
+                    AS_I64(res)[i] = j;
+                    continue;
+                }
 
-            for (i = 0; i < yl; i++) {
-                if (AS_I64(v)[i] >= (i64_t)xl) {
+                if (j < 0 || j >= xl) {
                     drop_obj(s);
                     drop_obj(res);
-                    return err_index(AS_I64(v)[i], xl, 0, 0);
+                    return err_index(j, xl, 0, 0);
                 }
 
-                AS_SYMBOL(res)[i] = AS_SYMBOL(s)[AS_I64(v)[AS_I64(y)[i]]];
+                AS_SYMBOL(res)[i] = AS_SYMBOL(s)[j];
             }
 
             drop_obj(s);
@@ -489,10 +497,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_U8(res)[i] = AS_U8(from)[start + i];
             } else {
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
                     AS_U8(res)[i] = AS_U8(from)[j % l];
             }
@@ -502,6 +514,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_U8:
         case -TYPE_C8:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_U8(res)[i] = from->u8;
             return res;
@@ -518,10 +532,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 res = I16(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I16(res)[i] = AS_I16(from)[start + i];
             } else {
                 res = I16(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
                     AS_I16(res)[i] = AS_I16(from)[j % l];
             }
@@ -529,6 +547,8 @@ obj_p ray_take(obj_p from, obj_p count) {
 
         case -TYPE_I16:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I16(res)[i] = from->i16;
             return res;
@@ -547,10 +567,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I32(res)[i] = AS_I32(from)[start + i];
             } else {
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
                     AS_I32(res)[i] = AS_I32(from)[j % l];
             }
@@ -560,6 +584,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_DATE:
         case -TYPE_TIME:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I32(res)[i] = from->i32;
             return res;
@@ -579,10 +605,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I64(res)[i] = AS_I64(from)[start + i];
             } else {
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
                     AS_I64(res)[i] = AS_I64(from)[j % l];
             }
@@ -593,6 +623,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_TIMESTAMP:
         case -TYPE_F64:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I64(res)[i] = from->i64;
             return res;
@@ -609,10 +641,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 res = GUID(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[start + i], sizeof(guid_t));
             } else {
                 res = GUID(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[j % l], sizeof(guid_t));
             }
@@ -620,6 +656,8 @@ obj_p ray_take(obj_p from, obj_p count) {
 
         case -TYPE_GUID:
             res = GUID(m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 memcpy(AS_GUID(res)[i], AS_GUID(from)[0], sizeof(guid_t));
             return res;
@@ -664,11 +702,21 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 res = I64(m);
+                if (IS_ERR(res)) {
+                    drop_obj(k);
+                    drop_obj(s);
+                    return res;
+                }
                 for (i = 0; i < m; i++) {
                     AS_I64(res)[i] = AS_I64(v)[start + i];
                 }
             } else {
                 res = I64(m);
+                if (IS_ERR(res)) {
+                    drop_obj(k);
+                    drop_obj(s);
+                    return res;
+                }
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
@@ -697,6 +745,8 @@ obj_p ray_take(obj_p from, obj_p count) {
                     m = l - start;
             }
             res = vector(TYPE_LIST, m);
+            if (IS_ERR(res))
+                return res;
             size = n;
 
             if (is_range) {
@@ -749,10 +799,14 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(TYPE_LIST, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[start + i]);
             } else {
                 res = vector(TYPE_LIST, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[j % l]);
             }
@@ -761,6 +815,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_TABLE:
             n = AS_LIST(from)[1]->len;
             res = vector(TYPE_LIST, n);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < n; i++) {
                 v = ray_take(AS_LIST(AS_LIST(from)[1])[i], count);
 
@@ -877,18 +933,47 @@ obj_p ray_in(obj_p x, obj_p y) {
 
             if (x->type == TYPE_LIST) {
                 vec = LIST(x->len);
-                for (i = 0; i < (i64_t)x->len; i++)
+                for (i = 0; i < (i64_t)x->len; i++) {
                     AS_LIST(vec)[i] = ray_in(AS_LIST(x)[i], y);
+                    if (IS_ERR(AS_LIST(vec)[i])) {
+                        obj_p err = AS_LIST(vec)[i];
+                        vec->len = i;
+                        drop_obj(vec);
+                        return err;
+                    }
+                }
+                return vec;
+            }
+
+            if (x->type == TYPE_ENUM || y->type == TYPE_ENUM) {
+                obj_p xv = (x->type == TYPE_ENUM) ? ray_value(x) : clone_obj(x);
+                obj_p yv = (y->type == TYPE_ENUM) ? ray_value(y) : clone_obj(y);
+
+                if (IS_ERR(xv)) {
+                    drop_obj(yv);
+                    return xv;
+                }
+
+                if (IS_ERR(yv)) {
+                    drop_obj(xv);
+                    return yv;
+                }
+
+                vec = ray_in(xv, yv);
+                drop_obj(xv);
+                drop_obj(yv);
+
                 return vec;
             }
 
-            if (IS_VECTOR(x) || !IS_VECTOR(y))
+            // items of the vector are looked up one by one
+            if (IS_VECTOR(x))
                 return map_binary_left_fn(ray_in, 0, x, y);
 
-            if (!IS_VECTOR(x))
+            if (IS_VECTOR(y))
                 return b8(find_obj_idx(y, x) != NULL_I64);
 
-            return err_type(TYPE_LIST, x->type, 0, 0);
+            return err_type(TYPE_LIST, y->type, 0, 0);
     }
 
     return NULL_OBJ;
@@ -1225,7 +1310,7 @@ obj_p ray_value(obj_p x) {
             res = SYMBOL(xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl)
+                if (AS_I64(e)[i] >= 0 && AS_I64(e)[i] < sl)
                     AS_SYMBOL(res)[i] = AS_SYMBOL(sym)[AS_I64(e)[i]];
                 else
                     AS_SYMBOL(res)[i] = NULL_I64;
diff --git a/core/iter.c b/core/iter.c
index 2630c6f..6581151 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -45,39 +45,16 @@ static obj_p concat_parts(obj_p parts) {
 
 obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
     i64_t i, l;
-    obj_p res, item, a, *v;
+    obj_p res, item, a;
 
     switch (x->type) {
         case TYPE_LIST:
-            l = ops_count(x);
-            if (l == 0)
-                return NULL_OBJ;
-
-            v = AS_LIST(x);
-            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[0]) : fn(v[0]);
-
-            if (IS_ERR(item))
-                return item;
-
-            res = (item->type < 0) ? vector(item->type, l) : LIST(l);
-            ins_obj(&res, 0, item);
-
-            for (i = 1; i < l; i++) {
-                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[i]) : fn(v[i]);
-                if (IS_ERR(item)) {
-                    res->len = i;
-                    drop_obj(res);
-                    return item;
-                }
-                ins_obj(&res, i, item);
-            }
-            return res;
-
         case TYPE_MAPLIST:
             l = ops_count(x);
             if (l == 0)
                 return NULL_OBJ;
 
+            // the list keeps its items: a function may reuse an argument nobody else refers to
             a = at_idx(x, 0);
             item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
             drop_obj(a);
@@ -108,12 +85,14 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
 
 obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end) {
     i64_t i, l = end - start;
-    obj_p res, item;
+    obj_p res, item, a;
 
     if (l == 0)
         return NULL_OBJ;
 
-    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start]) : fn(v[start]);
+    a = clone_obj(v[start]);
+    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+    drop_obj(a);
     if (IS_ERR(item))
         return item;
 
@@ -121,7 +100,9 @@ obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end)
     ins_obj(&res, 0, item);
 
     for (i = 1; i < l; i++) {
-        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start + i]) : fn(v[start + i]);
+        a = clone_obj(v[start + i]);
+        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+        drop_obj(a);
         if (IS_ERR(item)) {
             res->len = i;
             drop_obj(res);
@@ -307,14 +288,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        a = at_idx(x, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, a, b);
 
-        if (xt != TYPE_LIST)
-            drop_obj(a);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(a);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -324,14 +303,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            a = at_idx(x, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, a, b);
 
-            if (xt != TYPE_LIST)
-                drop_obj(a);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(a);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -349,10 +326,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             return fn(x, y);
         }
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
+        a = at_idx(x, 0);
         item = map_binary_fn(fn, attrs, a, y);
-        if (xt != TYPE_LIST)
-            drop_obj(a);
+        drop_obj(a);
 
         if (IS_ERR(item))
             return item;
@@ -362,10 +338,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
+            a = at_idx(x, i);
             item = map_binary_fn(fn, attrs, a, y);
-            if (xt != TYPE_LIST)
-                drop_obj(a);
+            drop_obj(a);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -382,10 +357,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, x, b);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -395,10 +369,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, x, b);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -417,8 +390,58 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
 
 obj_p map_binary(obj_p f, obj_p x, obj_p y) { return map_binary_fn((binary_f)f->i64, f->attrs, x, y); }
 
-obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
-    i64_t i, j, l;
+// Call f with items number i of all the arguments
+static obj_p call_vary_at(obj_p f, obj_p *x, i64_t n, i64_t i) {
+    i64_t j;
+    obj_p v;
+
+    if (!vm_stack_enough(n))
+        return err_limit(VM_STACK_SIZE);
+
+    for (j = 0; j < n; j++)
+        vm_stack_push(at_idx(x[j], i));
+
+    v = ((vary_f)f->i64)(vm_stack_peek(n - 1), n);
+
+    for (j = 0; j < n; j++)
+        drop_obj(vm_stack_pop());
+
+    return v;
+}
+
+// Call f with x, y and the n arguments in z, x and y are dropped
+static obj_p call_fold(obj_p f, obj_p x, obj_p y, obj_p *z, i64_t n) {
+    i64_t i;
+    obj_p v;
+
+    if (f->type == TYPE_BINARY) {
+        v = binary_call(f, x, y);
+        drop_obj(x);
+        drop_obj(y);
+        return v;
+    }
+
+    if (!vm_stack_enough(n + 2)) {
+        drop_obj(x);
+        drop_obj(y);
+        return err_limit(VM_STACK_SIZE);
+    }
+
+    vm_stack_push(x);
+    vm_stack_push(y);
+    for (i = 0; i < n; i++)
+        vm_stack_push(clone_obj(z[i]));
+
+    v = call(f, n + 2);
+
+    for (i = 0; i < n + 2; i++)
+        drop_obj(vm_stack_pop());
+
+    return v;
+}
+
+obj_p map_vary(obj_p f, obj_p *x, i64_t n) {
+    i64_t i, l;
     obj_p v, res;
 
     if (n == 0)
@@ -428,27 +451,20 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
     if (l == NULL_I64)
         return err_arity(1, n, 0);
 
-    for (j = 0; j < n; j++)
-        vm_stack_push(at_idx(x[j], 0));
+    if (l == 0)
+        return NULL_OBJ;
 
-    v = fn(x + n, n);
+    v = call_vary_at(f, x, n, 0);
 
     if (IS_ERR(v))
-        res = v;
+        return v;
 
     res = v->type < 0 ? vector(v->type, l) : LIST(l);
 
     ins_obj(&res, 0, v);
 
     for (i = 1; i < l; i++) {
-        for (j = 0; j < n; j++)
-            vm_stack_push(at_idx(x[j], i));
-
-        v = (attrs & FN_ATOMIC) ? map_vary_fn(fn, attrs, x + n, n) : fn(x + n, n);
-
-        // cleanup stack
-        for (j = 0; j < n; j++)
-            drop_obj(vm_stack_pop());
+        v = call_vary_at(f, x, n, i);
 
         if (IS_ERR(v)) {
             res->len = i;
@@ -462,8 +478,6 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
     return res;
 }
 
-obj_p map_vary(obj_p f, obj_p *x, i64_t n) { return map_vary_fn((vary_f)f->i64, f->attrs, x, n); }
-
 obj_p map_lambda_range(obj_p f, obj_p *lst, i64_t n, i64_t start, i64_t end) {
     i64_t i, j, l = end - start;
     obj_p v, res;
@@ -835,8 +849,29 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
     }
 }
 
+// Fold items of x, the first one is the initial value
+static obj_p fold_items(obj_p f, obj_p x) {
+    i64_t i, l;
+    obj_p v;
+
+    l = ops_count(x);
+    if (l == 0)
+        return LIST(0);
+
+    v = at_idx(x, 0);
+
+    for (i = 1; i < l; i++) {
+        v = call_fold(f, v, at_idx(x, i), NULL, 0);
+
+        if (IS_ERR(v))
+            return v;
+    }
+
+    return v;
+}
+
 obj_p ray_fold(obj_p *x, i64_t n) {
-    i64_t i, j, l;
+    i64_t i, l;
     obj_p f, v, x1, x2;
     i8_t xt, yt;
 
@@ -853,8 +888,8 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 return err_arity(1, n, 0);
             return map_unary(f, x[0]);
         case TYPE_BINARY:
-            if (n < 2)
-                return err_arity(1, n, 0);
+            if (n == 1)
+                return fold_items(f, x[0]);
 
             xt = x[0]->type;
             yt = x[1]->type;
@@ -868,27 +903,19 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
-
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    x2 = at_idx(x[1], i);
+                    v = call_fold(f, v, x2, NULL, 0);  // Use accumulated value as first argument
 
                     if (IS_ERR(v))
                         return v;
@@ -900,19 +927,16 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[1]);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, v, x1);  // Use accumulated value as first argument
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    x1 = at_idx(x[0], i);
+                    v = call_fold(f, v, x1, NULL, 0);  // Use accumulated value as first argument
 
                     if (IS_ERR(v))
                         return v;
@@ -924,19 +948,16 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[0]);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    x2 = at_idx(x[1], i);
+                    v = call_fold(f, v, x2, NULL, 0);  // Use accumulated value as first argument
 
                     if (IS_ERR(v))
                         return v;
@@ -955,27 +976,17 @@ obj_p ray_fold(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            for (i = 0; i < n; i++)
-                vm_stack_push(at_idx(x[i], 0));
-
-            v = vary_call(f, x, n);
+            if (l == 0)
+                return LIST(0);
 
-            // cleanup stack
-            for (i = 0; i < n; i++)
-                drop_obj(vm_stack_pop());
+            v = call_vary_at(f, x, n, 0);
 
             if (IS_ERR(v))
                 return v;
 
             for (i = 1; i < l; i++) {
-                for (j = 0; j < n; j++)
-                    vm_stack_push(at_idx(x[j], i));
-
-                v = vary_call(f, x, n);
-
-                // cleanup stack
-                for (j = 0; j < n; j++)
-                    drop_obj(vm_stack_pop());
+                drop_obj(v);
+                v = call_vary_at(f, x, n, i);
 
                 if (IS_ERR(v))
                     return v;
@@ -991,27 +1002,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
-                l = ops_count(x[0]);
-                if (l == 0)
-                    return LIST(0);
-
-                v = at_idx(x[0], 0);
-
-                for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
-                    x2 = at_idx(x[0], i);
-                    vm_stack_push(x2);
-
-                    v = call(f, 2);
-
-                    drop_obj(vm_stack_pop());
-                    drop_obj(vm_stack_pop());
-
-                    if (IS_ERR(v))
-                        return v;
-                }
-
-                return v;
+                return fold_items(f, x[0]);
             } else if (n == 2) {
                 l = ops_count(x[0]);
                 if (l == 0)
@@ -1020,14 +1011,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
-                    x2 = at_idx(x[1], i);
-                    vm_stack_push(x2);
-
-                    v = call(f, 2);
-
-                    drop_obj(vm_stack_pop());
-                    drop_obj(vm_stack_pop());
+                    v = call_fold(f, v, at_idx(x[1], i), NULL, 0);
 
                     if (IS_ERR(v))
                         return v;
@@ -1042,8 +1026,8 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 }
 
 obj_p ray_fold_left(obj_p *x, i64_t n) {
-    i64_t i, j, l;
-    obj_p f, v, x1, x2;
+    i64_t i, l;
+    obj_p f, v;
 
     if (n < 2)
         return LIST(0);
@@ -1067,23 +1051,8 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
 
             v = clone_obj(x[1]);  // Use rightmost argument as initial value
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
-                x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                // Current element from the leftmost argument first, then the result of previous iteration
+                v = call_fold(f, at_idx(x[0], i), v, NULL, 0);
 
                 if (IS_ERR(v))
                     return v;
@@ -1102,23 +1071,9 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
 
             v = clone_obj(x[1]);  // Use rightmost argument as initial value
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
-                x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                // Current element from the leftmost argument first, then the result of previous iteration,
+                // then all other arguments in between
+                v = call_fold(f, at_idx(x[0], i), v, x + 1, n - 2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1132,7 +1087,7 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
 
 obj_p ray_fold_right(obj_p *x, i64_t n) {
     i64_t i, j, l;
-    obj_p f, v, x1, x2;
+    obj_p f, v;
 
     if (n < 2)
         return LIST(0);
@@ -1156,11 +1111,7 @@ obj_p ray_fold_right(obj_p *x, i64_t n) {
 
             v = clone_obj(x[0]);
             for (i = 0; i < l; i++) {
-                x1 = at_idx(x[n - 1], i);
-                x2 = v;
-                v = binary_call(f, x1, x2);
-                drop_obj(x1);
-                drop_obj(x2);
+                v = call_fold(f, at_idx(x[n - 1], i), v, NULL, 0);
 
                 if (IS_ERR(v))
                     return v;
@@ -1180,24 +1131,21 @@ obj_p ray_fold_right(obj_p *x, i64_t n) {
             v = clone_obj(x[0]);
             for (i = 0; i < l; i++) {
                 // Push all arguments except the last one (which we iterate over)
-                for (j = 0; j < n - 1; j++) {
-                    if (j == 0) {
-                        vm_stack_push(v);  // Push accumulator
-                    } else {
-                        x1 = at_idx(x[j], i);
-                        vm_stack_push(x1);
-                    }
+                if (!vm_stack_enough(n)) {
+                    drop_obj(v);
+                    return err_limit(VM_STACK_SIZE);
                 }
+                vm_stack_push(v);  // Push accumulator
+                for (j = 1; j < n - 1; j++)
+                    vm_stack_push(at_idx(x[j], i));
                 // Push current element from the last argument
-                x1 = at_idx(x[n - 1], i);
-                vm_stack_push(x1);
+                vm_stack_push(at_idx(x[n - 1], i));
 
                 v = call(f, n);
 
                 // Cleanup stack
-                for (j = 0; j < n; j++) {
+                for (j = 0; j < n; j++)
                     drop_obj(vm_stack_pop());
-                }
 
                 if (IS_ERR(v))
                     return v;
@@ -1209,8 +1157,36 @@ obj_p ray_fold_right(obj_p *x, i64_t n) {
     }
 }
 
+// Fold items of x, the first one is the initial value, keep all the intermediate results
+static obj_p scan_items(obj_p f, obj_p x) {
+    i64_t i, l;
+    obj_p v, res;
+
+    l = ops_count(x);
+    if (l == 0)
+        return LIST(0);
+
+    v = at_idx(x, 0);
+    res = LIST(l);
+    ins_obj(&res, 0, v);
+
+    for (i = 1; i < l; i++) {
+        v = call_fold(f, clone_obj(v), at_idx(x, i), NULL, 0);
+
+        if (IS_ERR(v)) {
+            res->len = i;
+            drop_obj(res);
+            return v;
+        }
+
+        ins_obj(&res, i, v);
+    }
+
+    return res;
+}
+
 obj_p ray_scan(obj_p *x, i64_t n) {
-    i64_t i, j, l;
+    i64_t i, l;
     obj_p f, v, x1, x2, res;
     i8_t xt, yt;
 
@@ -1227,8 +1203,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 return err_arity(1, n, 0);
             return map_unary(f, x[0]);
         case TYPE_BINARY:
-            if (n < 2)
-                return err_arity(1, n, 0);
+            if (n == 1)
+                return scan_items(f, x[0]);
 
             xt = x[0]->type;
             yt = x[1]->type;
@@ -1242,14 +1218,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1258,14 +1232,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, x1, x2);
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1273,9 +1245,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                         return v;
                     }
 
-                    v = clone_obj(v);  // Clone result before storing
                     ins_obj(&res, i, v);
-                    drop_obj(v);  // Drop the original result
                 }
 
                 return res;
@@ -1284,10 +1254,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
@@ -1296,10 +1265,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, x1, v);
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    x1 = at_idx(x[0], i);
+                    v = call_fold(f, x1, clone_obj(v), NULL, 0);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1307,9 +1274,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                         return v;
                     }
 
-                    v = clone_obj(v);  // Clone result before storing
                     ins_obj(&res, i, v);
-                    drop_obj(v);  // Drop the original result
                 }
 
                 return res;
@@ -1318,10 +1283,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1330,10 +1294,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    x2 = at_idx(x[1], i);
+                    v = call_fold(f, clone_obj(v), x2, NULL, 0);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1341,9 +1303,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                         return v;
                     }
 
-                    v = clone_obj(v);  // Clone result before storing
                     ins_obj(&res, i, v);
-                    drop_obj(v);  // Drop the original result
                 }
 
                 return res;
@@ -1365,14 +1325,10 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            for (i = 0; i < n; i++)
-                vm_stack_push(at_idx(x[i], 0));
-
-            v = vary_call(f, x, n);
+            if (l == 0)
+                return LIST(0);
 
-            // cleanup stack
-            for (i = 0; i < n; i++)
-                drop_obj(vm_stack_pop());
+            v = call_vary_at(f, x, n, 0);
 
             if (IS_ERR(v))
                 return v;
@@ -1381,14 +1337,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             ins_obj(&res, 0, v);
 
             for (i = 1; i < l; i++) {
-                for (j = 0; j < n; j++)
-                    vm_stack_push(at_idx(x[j], i));
-
-                v = vary_call(f, x, n);
-
-                // cleanup stack
-                for (j = 0; j < n; j++)
-                    drop_obj(vm_stack_pop());
+                v = call_vary_at(f, x, n, i);
 
                 if (IS_ERR(v)) {
                     res->len = i;
@@ -1396,9 +1345,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                     return v;
                 }
 
-                v = clone_obj(v);  // Clone result before storing
                 ins_obj(&res, i, v);
-                drop_obj(v);  // Drop the original result
             }
 
             return res;
@@ -1411,36 +1358,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
-                l = ops_count(x[0]);
-                if (l == 0)
-                    return LIST(0);
-
-                v = at_idx(x[0], 0);
-                res = LIST(l);
-                ins_obj(&res, 0, v);
-
-                for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
-                    x2 = at_idx(x[0], i);
-                    vm_stack_push(x2);
-
-                    v = call(f, 2);
-
-                    drop_obj(vm_stack_pop());
-                    drop_obj(vm_stack_pop());
-
-                    if (IS_ERR(v)) {
-                        res->len = i;
-                        drop_obj(res);
-                        return v;
-                    }
-
-                    v = clone_obj(v);  // Clone result before storing
-                    ins_obj(&res, i, v);
-                    drop_obj(v);  // Drop the original result
-                }
-
-                return res;
+                return scan_items(f, x[0]);
             } else if (n == 2) {
                 l = ops_count(x[0]);
                 if (l == 0)
@@ -1451,14 +1369,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
-                    x2 = at_idx(x[1], i);
-                    vm_stack_push(x2);
-
-                    v = call(f, 2);
-
-                    drop_obj(vm_stack_pop());
-                    drop_obj(vm_stack_pop());
+                    v = call_fold(f, clone_obj(v), at_idx(x[1], i), NULL, 0);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1466,9 +1377,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                         return v;
                     }
 
-                    v = clone_obj(v);  // Clone result before storing
                     ins_obj(&res, i, v);
-                    drop_obj(v);  // Drop the original result
                 }
 
                 return res;
@@ -1480,8 +1389,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
 }
 
 obj_p ray_scan_left(obj_p *x, i64_t n) {
-    i64_t i, j, l;
-    obj_p f, v, x1, x2, res;
+    i64_t i, l;
+    obj_p f, v, res;
 
     if (n < 2)
         return LIST(0);
@@ -1508,11 +1417,7 @@ obj_p ray_scan_left(obj_p *x, i64_t n) {
             ins_obj(&res, 0, v);
 
             for (i = 0; i < l; i++) {
-                x1 = at_idx(x[0], i);        // Current element from leftmost argument
-                x2 = clone_obj(v);           // Clone previous result
-                v = binary_call(f, x1, x2);  // Pass current element as first argument
-                drop_obj(x1);
-                drop_obj(x2);
+                v = call_fold(f, at_idx(x[0], i), clone_obj(v), NULL, 0);
 
                 if (IS_ERR(v)) {
                     res->len = i + 1;
@@ -1520,9 +1425,7 @@ obj_p ray_scan_left(obj_p *x, i64_t n) {
                     return v;
                 }
 
-                v = clone_obj(v);  // Clone result before storing
                 ins_obj(&res, i + 1, v);
-                drop_obj(v);  // Drop the original result
             }
 
             return res;
@@ -1541,23 +1444,9 @@ obj_p ray_scan_left(obj_p *x, i64_t n) {
             ins_obj(&res, 0, v);
 
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
-                x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                // Current element from the leftmost argument, the result of previous iteration,
+                // then all other arguments in between
+                v = call_fold(f, at_idx(x[0], i), clone_obj(v), x + 1, n - 2);
 
                 if (IS_ERR(v)) {
                     res->len = i + 1;
@@ -1565,9 +1454,7 @@ obj_p ray_scan_left(obj_p *x, i64_t n) {
                     return v;
                 }
 
-                v = clone_obj(v);  // Clone result before storing
                 ins_obj(&res, i + 1, v);
-                drop_obj(v);  // Drop the original result
             }
 
             return res;
@@ -1577,8 +1464,8 @@ obj_p ray_scan_left(obj_p *x, i64_t n) {
 }
 
 obj_p ray_scan_right(obj_p *x, i64_t n) {
-    i64_t i, j, l;
-    obj_p f, v, x1, x2, res;
+    i64_t i, l;
+    obj_p f, v, res;
 
     if (n < 2)
         return LIST(0);
@@ -1605,11 +1492,7 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
             ins_obj(&res, 0, v);
 
             for (i = 0; i < l; i++) {
-                x1 = at_idx(x[n - 1], i);  // Current element from rightmost argument
-                x2 = clone_obj(v);         // Clone previous result
-                v = binary_call(f, x1, x2);
-                drop_obj(x1);
-                drop_obj(x2);
+                v = call_fold(f, at_idx(x[n - 1], i), clone_obj(v), NULL, 0);
 
                 if (IS_ERR(v)) {
                     res->len = i + 1;
@@ -1617,9 +1500,7 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
                     return v;
                 }
 
-                v = clone_obj(v);  // Clone result before storing
                 ins_obj(&res, i + 1, v);
-                drop_obj(v);  // Drop the original result
             }
 
             return res;
@@ -1638,23 +1519,9 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
             ins_obj(&res, 0, v);
 
             for (i = 0; i < l; i++) {
-                // Push current element from the rightmost argument
-                x1 = at_idx(x[n - 1], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 0; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                // Current element from the rightmost argument, the result of previous iteration,
+                // then all other arguments in between
+                v = call_fold(f, at_idx(x[n - 1], i), clone_obj(v), x + 1, n - 2);
 
                 if (IS_ERR(v)) {
                     res->len = i + 1;
@@ -1662,9 +1529,7 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
                     return v;
                 }
 
-                v = clone_obj(v);  // Clone result before storing
                 ins_obj(&res, i + 1, v);
-                drop_obj(v);  // Drop the original result
             }
 
             return res;
diff --git a/core/join.c b/core/join.c
index 366cb95..7c52cd9 100644
--- a/core/join.c
+++ b/core/join.c
@@ -35,54 +35,138 @@
 #include "order.h"
 #include "query.h"
 
+static obj_p find_column(obj_p tab, i64_t name) {
+    i64_t j = find_raw(AS_LIST(tab)[0], &name);
+
+    return (j == NULL_I64) ? NULL_OBJ : AS_LIST(AS_LIST(tab)[1])[j];
+}
+
+// A column the rows of which may be picked: enumerated symbols are resolved
+static obj_p join_column(obj_p col) {
+    if (col->type == TYPE_ENUM)
+        return ray_value(col);
+
+    return clone_obj(col);
+}
+
+// Columns to match rows by
+static obj_p join_keys(obj_p tab, obj_p syms, i64_t n) {
+    i64_t i;
+    obj_p col, res;
+
+    res = LIST(n);
+
+    for (i = 0; i < n; i++) {
+        col = find_column(tab, AS_SYMBOL(syms)[i]);
+        col = is_null(col) ? err_value(AS_SYMBOL(syms)[i]) : join_column(col);
+        if (!IS_ERR(col) && (!IS_VECTOR(col) || col->type == TYPE_ENUM)) {
+            i8_t type = col->type;
+            drop_obj(col);
+            col = err_type(TYPE_LIST, type, 0, 0);
+        }
+        if (IS_ERR(col)) {
+            res->len = i;
+            drop_obj(res);
+            return col;
+        }
+        AS_LIST(res)[i] = col;
+    }
+
+    return res;
+}
+
+// Key columns of both tables have to be of the same types
+static obj_p join_keys_pair(obj_p ltab, obj_p rtab, obj_p syms, i64_t n, obj_p *lkeys, obj_p *rkeys) {
+    i64_t i;
+    obj_p res;
+
+    *lkeys = join_keys(ltab, syms, n);
+    if (IS_ERR(*lkeys))
+        return *lkeys;
+
+    *rkeys = join_keys(rtab, syms, n);
+    if (IS_ERR(*rkeys)) {
+        drop_obj(*lkeys);
+        return *rkeys;
+    }
+
+    for (i = 0; i < n; i++) {
+        if (AS_LIST(*lkeys)[i]->type != AS_LIST(*rkeys)[i]->type) {
+            res = err_type(AS_LIST(*lkeys)[i]->type, AS_LIST(*rkeys)[i]->type, 0, 0);
+            drop_obj(*lkeys);
+            drop_obj(*rkeys);
+            return res;
+        }
+    }
+
+    return NULL_OBJ;
+}
+
 obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
     i64_t i;
-    obj_p v, res;
-    i64_t idx;
+    obj_p v, res, lc, rc;
     i8_t type;
 
     // there is no such column in the right table
     if (is_null(right_col))
         return clone_obj(left_col);
 
-    type = is_null(left_col) ? right_col->type : left_col->type;
+    rc = join_column(right_col);
+    if (IS_ERR(rc))
+        return rc;
 
-    if (right_col->type != type)
-        return err_type(type, right_col->type, 0, 0);
+    lc = join_column(left_col);
+    if (IS_ERR(lc)) {
+        drop_obj(rc);
+        return lc;
+    }
+
+    type = is_null(lc) ? rc->type : lc->type;
+
+    if (rc->type != type || !IS_VECTOR(rc)) {
+        res = err_type(type, rc->type, 0, 0);
+        drop_obj(lc);
+        drop_obj(rc);
+        return res;
+    }
 
     res = vector(type, len);
 
     for (i = 0; i < len; i++) {
-        idx = ids[i];
-        if (idx != NULL_I64)
-            v = at_idx(right_col, idx);
+        if (ids[i] != NULL_I64)
+            v = at_idx(rc, ids[i]);
+        else if (!is_null(lc))
+            v = at_idx(lc, i);
+        else if (type == TYPE_LIST)
+            v = NULL_OBJ;
         else
-            v = at_idx(left_col, i);
+            v = at_idx(rc, rc->len);
 
         ins_obj(&res, i, v);
     }
 
+    drop_obj(lc);
+    drop_obj(rc);
+
     return res;
 }
 
 obj_p get_column(obj_p left_col, obj_p right_col, obj_p lids, obj_p rids) {
-    i8_t type;
-
     // there is no such column in the right table
     if (is_null(right_col))
         return at_ids(left_col, AS_I64(lids), lids->len);
 
-    type = is_null(left_col) ? right_col->type : left_col->type;
-
-    if (right_col->type != type)
-        return err_type(type, right_col->type, 0, 0);
+    if (!is_null(left_col) && right_col->type != left_col->type &&
+        !((left_col->type == TYPE_ENUM && right_col->type == TYPE_SYMBOL) ||
+          (left_col->type == TYPE_SYMBOL && right_col->type == TYPE_ENUM)))
+        return err_type(left_col->type, right_col->type, 0, 0);
 
     return at_ids(right_col, AS_I64(rids), rids->len);
 }
 
 static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols, obj_p idx) {
     obj_p un, cols, vals, rescols, resvals;
-    i64_t i, j, l, len;
+    i64_t i, l, len;
     obj_p c1, c2, col;
 
     un = ray_union(AS_LIST(ltab)[0], AS_LIST(rtab)[0]);
@@ -109,26 +193,13 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
 
     // process each column
     for (i = 0; i < l; i++) {
-        c1 = NULL_OBJ;
-        c2 = NULL_OBJ;
-
-        for (j = 0; j < (i64_t)AS_LIST(ltab)[0]->len; j++) {
-            if (AS_SYMBOL(AS_LIST(ltab)[0])[j] == AS_SYMBOL(cols)[i]) {
-                c1 = AS_LIST(AS_LIST(ltab)[1])[j];
-                break;
-            }
-        }
-
-        for (j = 0; j < (i64_t)AS_LIST(rtab)[0]->len; j++) {
-            if (AS_SYMBOL(AS_LIST(rtab)[0])[j] == AS_SYMBOL(cols)[i]) {
-                c2 = AS_LIST(AS_LIST(rtab)[1])[j];
-                break;
-            }
-        }
+        c1 = find_column(ltab, AS_SYMBOL(cols)[i]);
+        c2 = find_column(rtab, AS_SYMBOL(cols)[i]);
 
         col = select_column(c1, c2, AS_I64(idx), len);
         if (IS_ERR(col)) {
             drop_obj(cols);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
@@ -139,24 +210,14 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
     rescols = ray_concat(ksyms, cols);
     drop_obj(cols);
 
-    // handle case when columns list is just one-element list
-    if (ksyms->len == 1) {
-        l = rescols->len;
-        resvals = vector(TYPE_LIST, l);
-        AS_LIST(resvals)[0] = clone_obj(kcols);
-        for (i = 1; i < l; i++)
-            AS_LIST(resvals)[i] = clone_obj(AS_LIST(vals)[i - 1]);
-        drop_obj(vals);
-    } else {
-        resvals = ray_concat(kcols, vals);
-        drop_obj(vals);
-    }
+    resvals = ray_concat(kcols, vals);
+    drop_obj(vals);
 
     return table(rescols, resvals);
 }
 
 obj_p ray_left_join(obj_p *x, i64_t n) {
-    obj_p k1, k2, idx, res;
+    obj_p k1, k2, keys, idx, res;
 
     if (n != 3)
         return err_arity(3, n, 0);
@@ -170,35 +231,29 @@ obj_p ray_left_join(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[2]->type, 0, 0);
 
-    if (ops_count(x[1]) == 0 || ops_count(x[2]) == 0)
-        return clone_obj(x[1]);
+    if (x[0]->len == 0)
+        return err_length(1, 0, 1, 0, 0, 0);
 
-    k1 = ray_at(x[1], x[0]);
-    if (IS_ERR(k1))
-        return k1;
-
-    k2 = ray_at(x[2], x[0]);
-    if (IS_ERR(k2)) {
-        drop_obj(k1);
-        return k2;
-    }
+    res = join_keys_pair(x[1], x[2], x[0], x[0]->len, &k1, &k2);
+    if (IS_ERR(res))
+        return res;
 
     idx = index_left_join_obj(k1, k2, x[0]->len);
+    drop_obj(k1);
     drop_obj(k2);
 
-    if (IS_ERR(idx)) {
-        drop_obj(k1);
+    if (IS_ERR(idx))
         return idx;
-    }
 
-    res = __left_join_inner(x[1], x[2], x[0], k1, idx);
+    keys = at_obj(x[1], x[0]);
+    res = __left_join_inner(x[1], x[2], x[0], keys, idx);
     drop_obj(idx);
-    drop_obj(k1);
+    drop_obj(keys);
     return res;
 }
 
 obj_p ray_inner_join(obj_p *x, i64_t n) {
-    i64_t i, j, l;
+    i64_t i, l;
     obj_p k1, k2, c1, c2, un, col, cols, vals, idx;
 
     if (n != 3)
@@ -213,18 +268,12 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[2]->type, 0, 0);
 
-    if (ops_count(x[1]) == 0 || ops_count(x[2]) == 0)
-        return clone_obj(x[1]);
-
-    k1 = ray_at(x[1], x[0]);
-    if (IS_ERR(k1))
-        return k1;
+    if (x[0]->len == 0)
+        return err_length(1, 0, 1, 0, 0, 0);
 
-    k2 = ray_at(x[2], x[0]);
-    if (IS_ERR(k2)) {
-        drop_obj(k1);
-        return k2;
-    }
+    col = join_keys_pair(x[1], x[2], x[0], x[0]->len, &k1, &k2);
+    if (IS_ERR(col))
+        return col;
 
     idx = index_inner_join_obj(k1, k2, x[0]->len);
     drop_obj(k1);
@@ -234,8 +283,10 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return idx;
 
     un = ray_union(AS_LIST(x[1])[0], AS_LIST(x[2])[0]);
-    if (IS_ERR(un))
+    if (IS_ERR(un)) {
+        drop_obj(idx);
         return un;
+    }
 
     // exclude columns that we are joining on
     cols = ray_except(un, x[0]);
@@ -263,27 +314,14 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
 
     // process each column
     for (i = 0; i < l; i++) {
-        c1 = NULL_OBJ;
-        c2 = NULL_OBJ;
-
-        for (j = 0; j < (i64_t)AS_LIST(x[1])[0]->len; j++) {
-            if (AS_SYMBOL(AS_LIST(x[1])[0])[j] == AS_SYMBOL(cols)[i]) {
-                c1 = AS_LIST(AS_LIST(x[1])[1])[j];
-                break;
-            }
-        }
-
-        for (j = 0; j < (i64_t)AS_LIST(x[2])[0]->len; j++) {
-            if (AS_SYMBOL(AS_LIST(x[2])[0])[j] == AS_SYMBOL(cols)[i]) {
-                c2 = AS_LIST(AS_LIST(x[2])[1])[j];
-                break;
-            }
-        }
+        c1 = find_column(x[1], AS_SYMBOL(cols)[i]);
+        c2 = find_column(x[2], AS_SYMBOL(cols)[i]);
 
         col = get_column(c1, c2, AS_LIST(idx)[0], AS_LIST(idx)[1]);
         if (IS_ERR(col)) {
             drop_obj(cols);
             drop_obj(idx);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
@@ -298,7 +336,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
 }
 
 obj_p ray_asof_join(obj_p *x, i64_t n) {
-    obj_p idx, v, ajkl, ajkr, keys, lvals, rvals, res;
+    obj_p idx, ajkl, ajkr, keys, lvals, rvals, res;
 
     if (n != 3)
         return err_arity(3, n, 0);
@@ -312,33 +350,22 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[2]->type, 0, 0);
 
-    v = ray_last(x[0]);
-    ajkl = ray_at(x[1], v);
-    ajkr = ray_at(x[2], v);
-    drop_obj(v);
+    // the last column is the one to search for the closest value by
+    n = x[0]->len - 1;
+    if (n < 1)
+        return err_length(2, x[0]->len, 1, 0, 0, 0);
 
-    if (is_null(ajkl) || is_null(ajkr)) {
-        drop_obj(ajkl);
-        drop_obj(ajkr);
-        return err_value(0);
-    }
+    res = join_keys_pair(x[1], x[2], x[0], n + 1, &lvals, &rvals);
+    if (IS_ERR(res))
+        return res;
 
-    if (ajkl->type != ajkr->type) {
-        i8_t expected = ajkl->type;
-        i8_t actual = ajkr->type;
-        drop_obj(ajkl);
-        drop_obj(ajkr);
-        return err_type(expected, actual, 0, 0);
-    }
-
-    keys = copy_obj(x[0]);
-    keys = remove_idx(&keys, keys->len - 1);
-    lvals = at_obj(x[1], keys);
-    rvals = at_obj(x[2], keys);
+    ajkl = AS_LIST(lvals)[n];
+    ajkr = AS_LIST(rvals)[n];
+    lvals->len = n;
+    rvals->len = n;
 
     idx = index_asof_join_obj(lvals, ajkl, rvals, ajkr);
 
-    drop_obj(keys);
     drop_obj(lvals);
     drop_obj(rvals);
     drop_obj(ajkl);
@@ -355,9 +382,56 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     return res;
 }
 
+// Windows are two vectors of bounds, a pair for every row of the left table
+static obj_p window_check(obj_p windows, obj_p times, i64_t len) {
+    i64_t i;
+    i8_t wide;
+    obj_p w;
+
+    switch (times->type) {
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            wide = 0;
+            break;
+        case TYPE_I64:
+        case TYPE_TIMESTAMP:
+            wide = 1;
+            break;
+        default:
+            return err_type(TYPE_TIME, times->type, 0, 0);
+    }
+
+    if (windows->len != 2)
+        return err_length(2, windows->len, 2, 0, 0, 0);
+
+    for (i = 0; i < 2; i++) {
+        w = AS_LIST(windows)[i];
+        switch (w->type) {
+            case TYPE_I32:
+            case TYPE_DATE:
+            case TYPE_TIME:
+                if (wide != 0)
+                    return err_type(times->type, w->type, 2, 0);
+                break;
+            case TYPE_I64:
+            case TYPE_TIMESTAMP:
+                if (wide != 1)
+                    return err_type(times->type, w->type, 2, 0);
+                break;
+            default:
+                return err_type(times->type, w->type, 2, 0);
+        }
+        if ((i64_t)w->len != len)
+            return err_length(len, w->len, 2, 0, 0, 0);
+    }
+
+    return NULL_OBJ;
+}
+
 static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     i64_t i, l;
-    obj_p k, v, wjkl, wjkr, keys, lvals, rvals, idx;
+    obj_p k, v, wjkl, wjkr, lvals, rvals, idx, res;
     obj_p agrvals, resyms, recols, jtab, rtab;
 
     if (n != 5)
@@ -378,37 +452,45 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     if (x[4]->type != TYPE_DICT)
         return err_type(TYPE_DICT, x[4]->type, 0, 0);
 
-    jtab = ray_xasc(x[3], x[0]);
-    if (IS_ERR(jtab))
-        return jtab;
+    if (AS_LIST(x[4])[0]->type != TYPE_SYMBOL)
+        return err_type(TYPE_SYMBOL, AS_LIST(x[4])[0]->type, 0, 0);
+
+    // the last column is the one the windows are over
+    n = x[0]->len - 1;
+    if (n < 0)
+        return err_length(1, 0, 1, 0, 0, 0);
 
-    v = ray_last(x[0]);
-    wjkl = ray_at(x[2], v);
-    wjkr = ray_at(jtab, v);
-    drop_obj(v);
+    res = join_keys_pair(x[2], x[3], x[0], n + 1, &lvals, &rvals);
+    if (IS_ERR(res))
+        return res;
 
-    if (is_null(wjkl) || is_null(wjkr)) {
-        drop_obj(wjkl);
-        drop_obj(wjkr);
-        return err_value(0);
+    res = window_check(x[1], AS_LIST(rvals)[n], ops_count(x[2]));
+    drop_obj(rvals);
+    if (IS_ERR(res)) {
+        drop_obj(lvals);
+        return res;
     }
 
-    if (wjkl->type != wjkr->type) {
-        i8_t expected = wjkl->type;
-        i8_t actual = wjkr->type;
-        drop_obj(wjkl);
-        drop_obj(wjkr);
-        return err_type(expected, actual, 0, 0);
+    jtab = ray_xasc(x[3], x[0]);
+    if (IS_ERR(jtab)) {
+        drop_obj(lvals);
+        return jtab;
     }
 
-    keys = copy_obj(x[0]);
-    keys = remove_idx(&keys, keys->len - 1);
-    lvals = at_obj(x[2], keys);
-    rvals = at_obj(jtab, keys);
+    rvals = join_keys(jtab, x[0], n + 1);
+    if (IS_ERR(rvals)) {
+        drop_obj(lvals);
+        drop_obj(jtab);
+        return rvals;
+    }
+
+    wjkl = AS_LIST(lvals)[n];
+    wjkr = AS_LIST(rvals)[n];
+    lvals->len = n;
+    rvals->len = n;
 
     idx = index_window_join_obj(lvals, wjkl, rvals, wjkr, x[1], x[2], jtab, tp);
 
-    drop_obj(keys);
     drop_obj(lvals);
     drop_obj(rvals);
     drop_obj(wjkl);
@@ -425,7 +507,9 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     agrvals = LIST(l);
 
     for (i = 0; i < l; i++) {
-        v = eval(AS_LIST(AS_LIST(x[4])[1])[i]);
+        k = at_idx(AS_LIST(x[4])[1], i);
+        v = eval(k);
+        drop_obj(k);
         if (IS_ERR(v)) {
             ctx.table = NULL_OBJ;
             query_ctx_destroy(&ctx);
@@ -456,6 +540,16 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
                 break;
         }
 
+        if (!IS_ERR(v) && !IS_VECTOR(v)) {
+            k = err_type(TYPE_LIST, v->type, 0, 0);
+            drop_obj(v);
+            v = k;
+        } else if (!IS_ERR(v) && ops_count(v) != ops_count(x[2])) {
+            k = err_length(ops_count(x[2]), ops_count(v), 0, 0, 0, 0);
+            drop_obj(v);
+            v = k;
+        }
+
         if (IS_ERR(v)) {
             ctx.table = NULL_OBJ;
             query_ctx_destroy(&ctx);
diff --git a/core/order.c b/core/order.c
index 8a46553..4f00bea 100644
--- a/core/order.c
+++ b/core/order.c
@@ -87,6 +87,9 @@ obj_p ray_asc(obj_p x) {
         case TYPE_U8:
         case TYPE_C8:
             idx = ray_sort_asc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = C8(l);
             res->type = x->type;
@@ -98,6 +101,9 @@ obj_p ray_asc(obj_p x) {
 
         case TYPE_I16:
             idx = ray_sort_asc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = I16(l);
             for (i = 0; i < l; i++)
@@ -110,6 +116,9 @@ obj_p ray_asc(obj_p x) {
         case TYPE_DATE:
         case TYPE_TIME:
             idx = ray_sort_asc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = I32(l);
             res->type = x->type;
@@ -124,6 +133,9 @@ obj_p ray_asc(obj_p x) {
         case TYPE_TIMESTAMP:
         case TYPE_F64:
             idx = ray_sort_asc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             for (i = 0; i < l; i++)
                 AS_I64(idx)[i] = AS_I64(x)[AS_I64(idx)[i]];
@@ -133,6 +145,9 @@ obj_p ray_asc(obj_p x) {
 
         case TYPE_LIST:
             idx = ray_sort_asc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = LIST(l);
             for (i = 0; i < l; i++)
@@ -143,12 +158,24 @@ obj_p ray_asc(obj_p x) {
 
         case TYPE_DICT: {
             idx = ray_sort_asc(AS_LIST(x)[1]);
+            if (IS_ERR(idx))
+                return idx;
+
             obj_p sorted_keys = at_obj(AS_LIST(x)[0], idx);
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
-
-            res = dict(sorted_keys, sorted_vals);
             drop_obj(idx);
-            return res;
+
+            if (IS_ERR(sorted_keys)) {
+                drop_obj(sorted_vals);
+                return sorted_keys;
+            }
+
+            if (IS_ERR(sorted_vals)) {
+                drop_obj(sorted_keys);
+                return sorted_vals;
+            }
+
+            return dict(sorted_keys, sorted_vals);
         }
 
         default:
@@ -172,6 +199,9 @@ obj_p ray_desc(obj_p x) {
         case TYPE_U8:
         case TYPE_C8:
             idx = ray_sort_desc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = C8(l);
             res->type = x->type;
@@ -183,6 +213,9 @@ obj_p ray_desc(obj_p x) {
 
         case TYPE_I16:
             idx = ray_sort_desc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = I16(l);
             for (i = 0; i < l; i++)
@@ -195,6 +228,9 @@ obj_p ray_desc(obj_p x) {
         case TYPE_DATE:
         case TYPE_TIME:
             idx = ray_sort_desc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = I32(l);
             res->type = x->type;
@@ -209,6 +245,9 @@ obj_p ray_desc(obj_p x) {
         case TYPE_TIMESTAMP:
         case TYPE_F64:
             idx = ray_sort_desc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             for (i = 0; i < l; i++)
                 AS_I64(idx)[i] = AS_I64(x)[AS_I64(idx)[i]];
@@ -218,6 +257,9 @@ obj_p ray_desc(obj_p x) {
 
         case TYPE_LIST:
             idx = ray_sort_desc(x);
+            if (IS_ERR(idx))
+                return idx;
+
             l = x->len;
             res = LIST(l);
             for (i = 0; i < l; i++)
@@ -228,12 +270,24 @@ obj_p ray_desc(obj_p x) {
 
         case TYPE_DICT: {
             idx = ray_sort_desc(AS_LIST(x)[1]);
+            if (IS_ERR(idx))
+                return idx;
+
             obj_p sorted_keys = at_obj(AS_LIST(x)[0], idx);
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
-
-            res = dict(sorted_keys, sorted_vals);
             drop_obj(idx);
-            return res;
+
+            if (IS_ERR(sorted_keys)) {
+                drop_obj(sorted_vals);
+                return sorted_keys;
+            }
+
+            if (IS_ERR(sorted_vals)) {
+                drop_obj(sorted_keys);
+                return sorted_vals;
+            }
+
+            return dict(sorted_keys, sorted_vals);
         }
 
         default:
@@ -251,6 +305,9 @@ obj_p ray_xasc(obj_p x, obj_p y) {
                 return col;
 
             idx = ray_iasc(col);
+            if (IS_ERR(idx))
+                return idx;
+
             drop_obj(col);
 
             if (IS_ERR(idx))
@@ -339,6 +396,9 @@ obj_p ray_xdesc(obj_p x, obj_p y) {
                 return col;
 
             idx = ray_idesc(col);
+            if (IS_ERR(idx))
+                return idx;
+
             drop_obj(col);
 
             if (IS_ERR(idx))
diff --git a/core/parse.c b/core/parse.c
index d34b928..a1dbc38 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -1133,6 +1133,10 @@ obj_p parse_dict(parser_t *parser) {
 
     drop_obj(tok);
 
+    // no pairs at all
+    if (keys == NULL_OBJ)
+        keys = SYMBOL(0);
+
     d = dict(keys, vals);
     span_extend(parser, &span);
     nfo_insert(parser->nfo, (i64_t)d, span);
diff --git a/core/rayforce.c b/core/rayforce.c
index 45e2308..2c5f4b2 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2632,7 +2632,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_SYMBOL, -TYPE_TIMESTAMP):
         case MTYPE2(-TYPE_SYMBOL, -TYPE_GUID):
             v = obj_fmt(obj, B8_FALSE);
-            res = symbol(AS_C8(v), strlen(AS_C8(v)));
+            res = symbol(AS_C8(v), strnlen(AS_C8(v), v->len));
             drop_obj(v);
             return res;
         case MTYPE2(-TYPE_SYMBOL, TYPE_C8):
@@ -3050,9 +3050,11 @@ nil_t drop_raw(raw_p ptr) { heap_free(ptr); }
 
 obj_p copy_obj(obj_p obj) {
     i64_t i, l;
-    obj_p res;
+    obj_p k, v, res;
 
     switch (obj->type) {
+        case TYPE_NULL:
+            return NULL_OBJ;
         case -TYPE_B8:
             return b8(obj->b8);
         case -TYPE_C8:
@@ -3088,11 +3090,15 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_F64:
         case TYPE_GUID:
             res = vector(obj->type, obj->len);
+            if (IS_ERR(res))
+                return res;
             memcpy(res->raw, obj->raw, size_of(obj) - sizeof(struct obj_t));
             return res;
         case TYPE_LIST:
             l = obj->len;
             res = LIST(l);
+            if (IS_ERR(res))
+                return res;
             res->rc = 1;
             for (i = 0; i < l; i++)
                 AS_LIST(res)[i] = clone_obj(AS_LIST(obj)[i]);
@@ -3101,9 +3107,16 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_MAPLIST:
             return ray_value(obj);
         case TYPE_TABLE:
-            return table(copy_obj(AS_LIST(obj)[0]), copy_obj(AS_LIST(obj)[1]));
         case TYPE_DICT:
-            return dict(copy_obj(AS_LIST(obj)[0]), copy_obj(AS_LIST(obj)[1]));
+            k = copy_obj(AS_LIST(obj)[0]);
+            if (IS_ERR(k))
+                return k;
+            v = copy_obj(AS_LIST(obj)[1]);
+            if (IS_ERR(v)) {
+                drop_obj(k);
+                return v;
+            }
+            return (obj->type == TYPE_TABLE) ? table(k, v) : dict(k, v);
         default:
             return err_nyi(obj->type);
     }
-- 
2.43.0


From a7ad836b0c302d67eac64967c3aa5b575eeb3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 62/98] fix: joins fill missing rows with typed nulls; both
 zeros sort as equal

---
 core/join.c     | 4 +---
 core/rayforce.c | 2 +-
 core/sort.c     | 4 ++++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/join.c b/core/join.c
index 7c52cd9..a5f95f5 100644
--- a/core/join.c
+++ b/core/join.c
@@ -137,10 +137,8 @@ obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
             v = at_idx(rc, ids[i]);
         else if (!is_null(lc))
             v = at_idx(lc, i);
-        else if (type == TYPE_LIST)
-            v = NULL_OBJ;
         else
-            v = at_idx(rc, rc->len);
+            v = null(type);
 
         ins_obj(&res, i, v);
     }
diff --git a/core/rayforce.c b/core/rayforce.c
index 2c5f4b2..2c16239 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -877,7 +877,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return guid(AS_GUID(obj)[idx]);
-            return NULL_OBJ;
+            return guid(NULL);
         case TYPE_ENUM:
             if (idx < 0)
                 idx = obj->len + idx;
diff --git a/core/sort.c b/core/sort.c
index 85beb98..eda9071 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -274,6 +274,10 @@ static inline u64_t f64_to_sortable_u64(f64_t value) {
     }
     u.f = value;
 
+    // Zeros of both signs are equal
+    if (u.u == 0x8000000000000000ULL)
+        u.u = 0;
+
     // Flip sign bit for negative values to maintain correct ordering
     if (u.u & 0x8000000000000000ULL) {
         u.u = ~u.u;
-- 
2.43.0


From a97f93ef1fc5d4a15d5d39d6fa378eaded48652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 63/98] fix: return works as an early return from the function;
 raise keeps its message, handlers get it as it was raised

---
 core/error.c |   1 +
 core/error.h |   3 +-
 core/eval.c  | 126 +++++++++++++++++++++++++++------------------------
 core/eval.h  |   1 +
 4 files changed, 72 insertions(+), 59 deletions(-)

diff --git a/core/error.c b/core/error.c
index 11e7adf..5e36752 100644
--- a/core/error.c
+++ b/core/error.c
@@ -24,6 +24,7 @@ static lit_p err_names[] = {
     "parse",   // EC_PARSE
     "nyi",     // EC_NYI
     "",        // EC_USER
+    "return",  // EC_RETURN
 };
 
 RAY_ASSERT(sizeof(err_names) / sizeof(err_names[0]) == EC_MAX, "err_names size mismatch");
diff --git a/core/error.h b/core/error.h
index 71a5103..9fa004a 100644
--- a/core/error.h
+++ b/core/error.h
@@ -25,10 +25,11 @@ typedef enum {
     EC_PARSE,   // Parse error
     EC_NYI,     // Not yet implemented
     EC_USER,    // User raised
+    EC_RETURN,  // Not an error: early return from a function is in progress
     EC_MAX
 } err_code_t;
 
-#define ERR_MSG_SIZE 24  // sizeof(err_t) == 32
+#define ERR_MSG_SIZE 248  // longer messages are cut
 
 typedef struct err_t {
     u8_t code;  // err_code_t
diff --git a/core/eval.c b/core/eval.c
index 4a02b90..bfcff2e 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -54,6 +54,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     // Cold fields
     vm->nfo = NULL_OBJ;
     vm->trace = NULL_OBJ;
+    vm->ret = NULL_OBJ;
     vm->timeit = NULL;     // Lazy allocated when timing enabled
     vm->query_ctx = NULL;  // No active query context
     vm->rc_sync = 0;       // Single-threaded by default
@@ -300,6 +301,20 @@ nil_t eval_error_add_loc(obj_p expr) {
         push_raw(&vm->trace, &loc);
 }
 
+// Forget locations of errors, except for the first n of them
+static nil_t trace_truncate(vm_p vm, i64_t n) {
+    if (vm->trace == NULL_OBJ)
+        return;
+
+    while (vm->trace->len > n)
+        drop_obj(AS_LIST(vm->trace)[--vm->trace->len]);
+
+    if (n == 0) {
+        drop_obj(vm->trace);
+        vm->trace = NULL_OBJ;
+    }
+}
+
 static inline obj_p unwrap(obj_p obj, i64_t id) {
     if (IS_ERR(obj))
         eval_error_add_loc((obj_p)id);
@@ -347,6 +362,7 @@ __attribute__((hot)) obj_p vm_eval(obj_p fn) {
     ctx_t *rs;
     i64_t ip = 0;
     i64_t n, sp = vm->sp;
+    i64_t trace = (vm->trace == NULL_OBJ) ? 0 : vm->trace->len;
     obj_p x, y, r, *l, res, *val;
 
     // Setup VM for this function
@@ -389,7 +405,10 @@ OP_RET:
             // Return to external caller (call() function)
             // Don't clean up args - caller (lambda_call) handles that
             // Just return the result; leave args on stack for caller to pop
-            return pop();
+            r = pop();
+            while (vm->sp > sp)
+                drop_obj(pop());
+            return r;
         }
         // Return from nested bytecode call
         r = pop();
@@ -438,8 +457,7 @@ OP_RESOLVE:
     if (UNLIKELY(val == NULL)) {
         r = err_value(x->i64);  // symbol not found
         drop_obj(x);
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r, sp);
+        goto error;
     }
     y = clone_obj(*val);
     drop_obj(x);
@@ -454,8 +472,7 @@ OP_CALL1:
     drop_obj(x);
     drop_obj(y);
     if (UNLIKELY(IS_ERR(r))) {
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r, sp);
+        goto error;
     }
     push(r);
     next();
@@ -469,8 +486,8 @@ OP_CALL2:
     drop_obj(y);
     drop_obj(r);
     if (UNLIKELY(IS_ERR(res))) {
-        bc_error_add_loc(res, vm->fn, ip - 1);
-        return vm_error_unwind(vm, res, sp);
+        r = res;
+        goto error;
     }
     push(res);
     next();
@@ -485,8 +502,8 @@ OP_CALLN:
     vm->sp -= n;
     drop_obj(r);
     if (UNLIKELY(IS_ERR(res))) {
-        bc_error_add_loc(res, vm->fn, ip - 1);
-        return vm_error_unwind(vm, res, sp);
+        r = res;
+        goto error;
     }
     push(res);
     next();
@@ -498,8 +515,7 @@ OP_CALLF:
         i8_t got = x->type;
         drop_obj(x);
         r = err_type(TYPE_LAMBDA, got, 0, 0);
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r, sp);
+        goto error;
     }
 callf:
     // Compile if not already compiled
@@ -507,22 +523,19 @@ callf:
         r = cc_compile(x);
         if (UNLIKELY(IS_ERR(r))) {
             drop_obj(x);
-            bc_error_add_loc(r, vm->fn, ip - 1);
-            return vm_error_unwind(vm, r, sp);
+            goto error;
         }
     }
     if (UNLIKELY(n != AS_LAMBDA(x)->args->len)) {
         r = err_length(AS_LAMBDA(x)->args->len, n, 0, 0, 0, 0);
         drop_obj(x);
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r, sp);
+        goto error;
     }
     // Check for stack overflow
     if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
         drop_obj(x);
         r = err_limit(VM_STACK_SIZE);
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r, sp);
+        goto error;
     }
     // Save current context
     rs = &vm->rs[vm->rp++];
@@ -543,8 +556,7 @@ OP_CALLS:
     // Self-recursive call - check for stack overflow
     if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
         r = err_limit(VM_STACK_SIZE);
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r, sp);
+        goto error;
     }
     rs = &vm->rs[vm->rp++];
     rs->ip = ip;
@@ -565,16 +577,14 @@ OP_CALLD:
             if (UNLIKELY(n != 1)) {
                 drop_obj(x);
                 r = err_arity(1, n, 0);
-                bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r, sp);
+                goto error;
             }
             y = pop();
             r = unary_call(x, y);
             drop_obj(y);
             drop_obj(x);
             if (UNLIKELY(IS_ERR(r))) {
-                bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r, sp);
+                goto error;
             }
             push(r);
             break;
@@ -582,8 +592,7 @@ OP_CALLD:
             if (UNLIKELY(n != 2)) {
                 drop_obj(x);
                 r = err_arity(2, n, 0);
-                bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r, sp);
+                goto error;
             }
             y = pop();
             r = pop();
@@ -592,8 +601,8 @@ OP_CALLD:
             drop_obj(y);
             drop_obj(x);
             if (UNLIKELY(IS_ERR(res))) {
-                bc_error_add_loc(res, vm->fn, ip - 1);
-                return vm_error_unwind(vm, res, sp);
+                r = res;
+                goto error;
             }
             push(res);
             break;
@@ -605,8 +614,7 @@ OP_CALLD:
             vm->sp -= n;
             drop_obj(x);
             if (UNLIKELY(IS_ERR(r))) {
-                bc_error_add_loc(r, vm->fn, ip - 1);
-                return vm_error_unwind(vm, r, sp);
+                goto error;
             }
             push(r);
             break;
@@ -616,8 +624,7 @@ OP_CALLD:
             i8_t got = x->type;
             drop_obj(x);
             r = err_type(TYPE_LAMBDA, got, 0, 0);  // not callable
-            bc_error_add_loc(r, vm->fn, ip - 1);
-            return vm_error_unwind(vm, r, sp);
+            goto error;
         }
     }
     next();
@@ -640,6 +647,16 @@ OP_STOREENV:
 
 overflow:
     r = err_limit(VM_STACK_SIZE);
+
+error:
+    // Early return from the function
+    if (err_code(r) == EC_RETURN) {
+        trace_truncate(vm, trace);
+        push(vm->ret);
+        vm->ret = NULL_OBJ;
+        goto OP_RET;
+    }
+
     bc_error_add_loc(r, vm->fn, ip - 1);
     return vm_error_unwind(vm, r, sp);
 
@@ -916,25 +933,32 @@ __attribute__((hot)) obj_p eval(obj_p obj) {
 // Special Forms
 // ============================================================================
 
+// Early return: unwinds everything up to the function it has been called from as an error does
 obj_p ray_return(obj_p *x, i64_t n) {
-    UNUSED(x);
-    UNUSED(n);
-    // Return is now handled via normal bytecode execution
-    // For recursive eval, we just return the value
-    if (n == 0)
-        return NULL_OBJ;
-    return clone_obj(x[0]);
+    vm_p vm = VM;
+    obj_p res = (n == 0) ? NULL_OBJ : clone_obj(x[0]);
+
+    if (vm->fn == NULL_OBJ)
+        return res;
+
+    drop_obj(vm->ret);
+    vm->ret = res;
+
+    return err_raw(EC_RETURN);
 }
 
 obj_p ray_raise(obj_p obj) {
-    obj_p e;
+    c8_t msg[ERR_MSG_SIZE];
+    i64_t n;
 
     if (obj->type != TYPE_C8)
         return err_type(TYPE_C8, obj->type, 0, 0);
 
-    // Clone the message since error_obj takes ownership but caller drops the argument
-    e = err_user(NULL);
-    return e;
+    n = (obj->len < ERR_MSG_SIZE) ? obj->len : ERR_MSG_SIZE - 1;
+    memcpy(msg, AS_C8(obj), n);
+    msg[n] = '\0';
+
+    return err_user(msg);
 }
 
 obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file) {
@@ -953,20 +977,6 @@ obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file) {
 
 obj_p eval_obj(obj_p obj) { return eval(obj); }
 
-// Forget locations of errors, except for the first n of them
-static nil_t trace_truncate(vm_p vm, i64_t n) {
-    if (vm->trace == NULL_OBJ)
-        return;
-
-    while (vm->trace->len > n)
-        drop_obj(AS_LIST(vm->trace)[--vm->trace->len]);
-
-    if (n == 0) {
-        drop_obj(vm->trace);
-        vm->trace = NULL_OBJ;
-    }
-}
-
 obj_p eval_str_w_attr(lit_p str, i64_t len, obj_p nfo_arg) {
     obj_p parsed, res;
     vm_p vm = VM;
@@ -1050,7 +1060,7 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
     // Simple try - just evaluate and catch errors
     res = eval(obj);
 
-    if (IS_ERR(res)) {
+    if (IS_ERR(res) && err_code(res) != EC_RETURN) {
         // The error is handled: forget its locations
         trace_truncate(vm, n);
 
@@ -1065,7 +1075,7 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
                     return err_arity(1, AS_LAMBDA(fn)->args->len, 0);
                 }
                 // Push error message as string for catch handler
-                vm_stack_push(str_fmt(-1, "%s", err_msg(res)));
+                vm_stack_push(string_from_str(err_msg(res), strlen(err_msg(res))));
                 drop_obj(res);
                 res = call(fn, 1);
                 drop_obj(vm_stack_pop());
diff --git a/core/eval.h b/core/eval.h
index 0bfe8a7..261d581 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -101,6 +101,7 @@ typedef struct vm_t {
     obj_p nfo;    // error source info
     obj_p trace;  // error stack trace
     err_t err;    // last error context (no allocation)
+    obj_p ret;    // value of the early return in progress
 } __attribute__((aligned(64))) * vm_p;
 
 // Thread-local VM pointer
-- 
2.43.0


From 7139b7395c0500c1f8aee0fdce2ee450b8108da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 64/98] fix: a block is merged only with free blocks of the
 same heap

---
 core/heap.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/heap.c b/core/heap.c
index 4eb09e2..9d83c26 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -188,6 +188,7 @@ inline __attribute__((always_inline)) nil_t heap_insert_block(heap_p heap, block
     block->next = heap->freelist[order];
     block->used = 0;
     block->order = order;
+    block->heap_id = heap->id;
 
     if (heap->freelist[order] != NULL)
         heap->freelist[order]->prev = block;
@@ -400,8 +401,8 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
         buddy = BUDDYOF(block, order);
         __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
 
-        // buddy is used, or buddy is of different order, so we can't merge
-        if (buddy->used || buddy->order != order)
+        // buddy is used, or buddy is of different order, or it is free in another heap, so we can't merge
+        if (buddy->used || buddy->order != order || buddy->heap_id != heap->id)
             return heap_insert_block(heap, block, order);
 
         // merge blocks: remove buddy from its freelist.
@@ -510,6 +511,7 @@ nil_t heap_borrow(heap_p heap) {
 
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
+        heap->freelist[i]->heap_id = heap->id;
         heap->avail |= BSIZEOF(i);
     }
 
@@ -525,6 +527,7 @@ nil_t heap_borrow(heap_p heap) {
 
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
+        heap->freelist[i]->heap_id = heap->id;
         heap->avail |= BSIZEOF(i);
     }
 }
@@ -564,8 +567,11 @@ nil_t heap_merge(heap_p heap) {
 
         // Find tail of worker's freelist
         last = heap->freelist[i];
-        while (last->next != NULL)
+        last->heap_id = h->id;
+        while (last->next != NULL) {
             last = last->next;
+            last->heap_id = h->id;
+        }
 
         // Link: worker_tail -> main_head, main_head = worker_head
         last->next = h->freelist[i];
-- 
2.43.0


From 92eaf0b87cacab12270daac6a45f32422a08575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:40 +0000
Subject: [PATCH 65/98] fix: parallel runs: errors of workers keep their
 context, workers see variables of the caller, nested pmap, late workers,
 compilation of a lambda by several threads, shutdown

---
 core/cc.c   | 21 +++++++++++--
 core/eval.c | 89 +++++++++++++++++++++++++++++++++++++++-------------
 core/eval.h |  1 +
 core/iter.c |  8 ++---
 core/pool.c | 90 +++++++++++++++++++++++++++++++++++++++--------------
 core/pool.h |  9 ++++++
 6 files changed, 166 insertions(+), 52 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index d2a430d..8dad6be 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -30,6 +30,7 @@
 #include "nfo.h"
 #include "env.h"
 #include "error.h"
+#include "pool.h"
 
 // Add location info from compiler context when a compile error occurs
 static nil_t cc_error_add_loc(cc_ctx_t *cc) {
@@ -422,7 +423,7 @@ end:
 }
 
 // Main compilation entry point
-obj_p cc_compile(obj_p lambda) {
+static obj_p cc_compile_lambda(obj_p lambda) {
     lambda_p fn = AS_LAMBDA(lambda);
     obj_p body = fn->body;
     obj_p result;
@@ -490,9 +491,9 @@ obj_p cc_compile(obj_p lambda) {
     }
 
     // Store compiled bytecode, constants, and debug info in lambda
-    fn->bc = cc.bc;
     fn->consts = cc.consts;
     fn->dbg = cc.dbg;
+    __atomic_store_n(&fn->bc, cc.bc, __ATOMIC_RELEASE);
 
     // Don't pre-create env dict - let runtime handle it via amend()
     // env_names was just for compile-time offset lookups (args)
@@ -590,3 +591,19 @@ nil_t cc_dump(obj_p lambda) {
     }
     printf("=====================\n");
 }
+
+obj_p cc_compile(obj_p lambda) {
+    obj_p res = NULL_OBJ;
+    vm_p vm = VM;
+
+    if (!vm->rc_sync)
+        return cc_compile_lambda(lambda);
+
+    // Several threads may be about to call it
+    mutex_lock(&vm->pool->mutex);
+    if (AS_LAMBDA(lambda)->bc == NULL_OBJ)
+        res = cc_compile_lambda(lambda);
+    mutex_unlock(&vm->pool->mutex);
+
+    return res;
+}
diff --git a/core/eval.c b/core/eval.c
index bfcff2e..aef3ecb 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -33,6 +33,8 @@
 #include "aggr.h"
 #include "cc.h"
 #include "env.h"
+#include "pool.h"
+#include "query.h"
 
 // Thread-local VM pointer
 __thread vm_p __VM = NULL;
@@ -98,9 +100,8 @@ nil_t vm_destroy(vm_p vm) {
 // Returns pointer to value slot, or NULL if not found
 // - offset < nargs: return stack pointer at fp_offset + offset
 // - offset >= nargs: return pointer into values of the frame's locals
-static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
+static obj_p *resolve_in_env(vm_p vm, obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     i64_t i, n;
-    vm_p vm = VM;
 
     if (fn == NULL_OBJ)
         return NULL;
@@ -132,40 +133,82 @@ static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     return NULL;
 }
 
-obj_p *resolve(i64_t sym) {
-    i64_t j, frame;
-    obj_p fn, *result;
+// Helper: resolve symbol in return stack frames, from the innermost one
+static obj_p *resolve_in_frames(vm_p vm, i64_t rp, i64_t sym) {
+    obj_p *result;
+    ctx_t *frame;
+
+    while (rp > 0) {
+        frame = &vm->rs[--rp];
+        result = resolve_in_env(vm, frame->fn, frame->env, sym, frame->fp);
+        if (result != NULL)
+            return result;
+    }
+
+    return NULL;
+}
+
+// Helper: resolve symbol in query context stack (for table column access)
+static obj_p *resolve_in_query(query_ctx_p ctx, i64_t sym) {
     i64_t i, n;
-    vm_p vm = VM;
+    obj_p cols;
+
+    for (; ctx != NULL; ctx = ctx->parent) {
+        if (ctx->table != NULL_OBJ) {
+            cols = AS_LIST(ctx->table)[0];  // column names (symbol vector)
+            n = cols->len;
+            for (i = 0; i < n; i++) {
+                if (AS_SYMBOL(cols)[i] == sym)
+                    return &AS_LIST(AS_LIST(ctx->table)[1])[i];
+            }
+        }
+    }
+
+    return NULL;
+}
 
-    fn = vm->fn;
+obj_p *resolve(i64_t sym) {
+    i64_t j;
+    obj_p *result;
+    vm_p vm = VM, caller = NULL;
 
     if (sym == SYMBOL_SELF)
         return &vm->fn;
 
     // Search in current lambda's env (args + let-bound locals)
-    result = resolve_in_env(fn, vm->env, sym, vm->fp);
+    result = resolve_in_env(vm, vm->fn, vm->env, sym, vm->fp);
     if (result != NULL)
         return result;
 
     // Walk up return stack - check each parent lambda's env
-    for (frame = vm->rp; frame > 0; frame--) {
-        fn = vm->rs[frame - 1].fn;
-        result = resolve_in_env(fn, vm->rs[frame - 1].env, sym, vm->rs[frame - 1].fp);
+    result = resolve_in_frames(vm, vm->rp, sym);
+    if (result != NULL)
+        return result;
+
+    // A worker goes on with the calls its task has been started from
+    if (vm->id != 0 && vm->pool != NULL)
+        caller = vm->pool->caller;
+
+    if (caller != NULL) {
+        result = resolve_in_env(caller, vm->pool->caller_frame.fn, vm->pool->caller_frame.env, sym,
+                                vm->pool->caller_frame.fp);
+        if (result != NULL)
+            return result;
+
+        result = resolve_in_frames(caller, vm->pool->caller_rp, sym);
         if (result != NULL)
             return result;
     }
 
     // Search in query context stack (for table column access)
-    for (query_ctx_p ctx = vm->query_ctx; ctx != NULL; ctx = ctx->parent) {
-        if (ctx->table != NULL_OBJ) {
-            obj_p cols = AS_LIST(ctx->table)[0];  // column names (symbol vector)
-            n = cols->len;
-            for (i = 0; i < n; i++) {
-                if (AS_SYMBOL(cols)[i] == sym)
-                    return &AS_LIST(AS_LIST(ctx->table)[1])[i];
-            }
-        }
+    result = resolve_in_query(vm->query_ctx, sym);
+    if (result != NULL)
+        return result;
+
+    if (caller != NULL) {
+        result = resolve_in_query(vm->pool->caller_query_ctx, sym);
+        if (result != NULL)
+            return result;
     }
 
     // Search in globals
@@ -315,6 +358,8 @@ static nil_t trace_truncate(vm_p vm, i64_t n) {
     }
 }
 
+nil_t vm_trace_clear(vm_p vm) { trace_truncate(vm, 0); }
+
 static inline obj_p unwrap(obj_p obj, i64_t id) {
     if (IS_ERR(obj))
         eval_error_add_loc((obj_p)id);
@@ -519,7 +564,7 @@ OP_CALLF:
     }
 callf:
     // Compile if not already compiled
-    if (UNLIKELY(AS_LAMBDA(x)->bc == NULL_OBJ)) {
+    if (UNLIKELY(__atomic_load_n(&AS_LAMBDA(x)->bc, __ATOMIC_ACQUIRE) == NULL_OBJ)) {
         r = cc_compile(x);
         if (UNLIKELY(IS_ERR(r))) {
             drop_obj(x);
@@ -682,7 +727,7 @@ obj_p call(obj_p fn, i64_t arity) {
         return err_length(lam->args->len, arity, 0, 0, 0, 0);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
-    if (lam->bc == NULL_OBJ) {
+    if (__atomic_load_n(&lam->bc, __ATOMIC_ACQUIRE) == NULL_OBJ) {
         res = cc_compile(fn);
         if (IS_ERR(res))
             return res;
diff --git a/core/eval.h b/core/eval.h
index 261d581..1f572e4 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -110,6 +110,7 @@ extern __thread vm_p __VM;
 // VM lifecycle
 vm_p vm_create(i32_t id, struct pool_t *pool);
 nil_t vm_destroy(vm_p vm);
+nil_t vm_trace_clear(vm_p vm);
 
 // Fast access to current VM - macro for zero overhead
 #define VM (__VM)
diff --git a/core/iter.c b/core/iter.c
index 6581151..677b85b 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -126,9 +126,9 @@ obj_p pmap_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_unary_fn(fn, attrs, x);  // Fallback when pool not initialized
     num_chunks = pool_get_executors_count(pool);
+    if (num_chunks == 1)
+        return map_unary_fn(fn, attrs, x);  // Nobody to share the work with
 
     // Limit chunks to number of elements
     if (num_chunks > l)
@@ -571,9 +571,9 @@ obj_p pmap_lambda(obj_p f, obj_p *x, i64_t n) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_lambda(f, x, n);  // Fallback when pool not initialized
     num_chunks = pool_get_executors_count(pool);
+    if (num_chunks == 1)
+        return map_lambda(f, x, n);  // Nobody to share the work with
 
     // Limit chunks to number of elements
     if (num_chunks > l)
diff --git a/core/pool.c b/core/pool.c
index 9450dcd..b30f380 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -165,11 +165,26 @@ obj_p pool_call_task_fn(raw_p fn, i64_t argc, raw_p argv[]) {
     }
 }
 
+// Execute a task; the context of an error is kept, as it lives in the VM of the thread which ran into it
+static nil_t pool_run_task(pool_p pool, task_data_t *data) {
+    data->result = pool_call_task_fn(data->fn, data->argc, data->argv);
+
+    if (IS_ERR(data->result)) {
+        mutex_lock(&pool->mutex);
+        if (pool->err_id == -1 || data->id < pool->err_id) {
+            pool->err_id = data->id;
+            pool->err = VM->err;
+        }
+        mutex_unlock(&pool->mutex);
+    }
+}
+
 raw_p executor_run(raw_p arg) {
     executor_t *executor = (executor_t *)arg;
     task_data_t data;
-    i64_t i, tasks_count;
-    obj_p res;
+    i64_t i, tasks_count, run_id = 0;
+    pool_p pool = executor->pool;
+    mpmc_p task_queue, result_queue;
     vm_p vm;
 
     // Create VM (which also creates heap) with pool pointer
@@ -179,40 +194,47 @@ raw_p executor_run(raw_p arg) {
     __atomic_store_n(&executor->heap, vm->heap, __ATOMIC_RELAXED);
     __atomic_store_n(&executor->vm, vm, __ATOMIC_RELAXED);
 
+    mutex_lock(&pool->mutex);
+
     for (;;) {
-        mutex_lock(&executor->pool->mutex);
-        cond_wait(&executor->pool->run, &executor->pool->mutex);
+        // wait for a run this executor has not taken part in: the one which is over (or is only being prepared)
+        // leaves nothing to do
+        while (pool->state == RUN_STATE_RUNNING && (!pool->running || pool->run_id == run_id))
+            cond_wait(&pool->run, &pool->mutex);
 
-        if (executor->pool->state == RUN_STATE_STOPPED) {
-            mutex_unlock(&executor->pool->mutex);
+        if (pool->state == RUN_STATE_STOPPED)
             break;
-        }
 
-        tasks_count = executor->pool->tasks_count;
-        mutex_unlock(&executor->pool->mutex);
+        run_id = pool->run_id;
+        tasks_count = pool->tasks_count;
+        task_queue = pool->task_queue;
+        result_queue = pool->result_queue;
+        pool->active_count++;
+        mutex_unlock(&pool->mutex);
 
         // process tasks
         for (i = 0; i < tasks_count; i++) {
-            data = mpmc_pop(executor->pool->task_queue);
+            data = mpmc_pop(task_queue);
 
             // Nothing to do
             if (data.id == -1)
                 break;
 
             // execute task
-            res = pool_call_task_fn(data.fn, data.argc, data.argv);
-            data.result = res;
-            mpmc_push(executor->pool->result_queue, data);
+            pool_run_task(pool, &data);
+            mpmc_push(result_queue, data);
         }
 
-        if (i > 0) {
-            mutex_lock(&executor->pool->mutex);
-            executor->pool->done_count += i;
-            cond_signal(&executor->pool->done);
-            mutex_unlock(&executor->pool->mutex);
-        }
+        vm_trace_clear(vm);
+
+        mutex_lock(&pool->mutex);
+        pool->done_count += i;
+        pool->active_count--;
+        cond_signal(&pool->done);
     }
 
+    mutex_unlock(&pool->mutex);
+
     vm_destroy(__VM);
 
     return NULL;
@@ -228,6 +250,11 @@ pool_p pool_create(i64_t thread_count) {
     pool->executors_count = thread_count;
     pool->done_count = 0;
     pool->tasks_count = 0;
+    pool->active_count = 0;
+    pool->run_id = 0;
+    pool->running = B8_FALSE;
+    pool->err_id = -1;
+    pool->caller = NULL;
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->state = RUN_STATE_RUNNING;
@@ -309,6 +336,7 @@ nil_t pool_prepare(pool_p pool) {
 
     pool->tasks_count = 0;
     pool->done_count = 0;
+    pool->err_id = -1;
 
     n = pool->executors_count;
     for (i = 1; i < n; i++) {  // Skip executor[0] (main thread) - no self-borrow
@@ -370,6 +398,7 @@ obj_p pool_run(pool_p pool) {
     i64_t i, n, tasks_count, executors_count;
     obj_p e, res;
     task_data_t data;
+    vm_p vm = VM;
 
     if (pool == NULL)
         PANIC("pool is NULL");
@@ -381,6 +410,15 @@ obj_p pool_run(pool_p pool) {
     tasks_count = pool->tasks_count;
     executors_count = pool->executors_count;
 
+    // tasks see variables of the caller
+    pool->caller = vm;
+    pool->caller_frame = (ctx_t){.fn = vm->fn, .env = vm->env, .fp = vm->fp, .ip = 0};
+    pool->caller_rp = vm->rp;
+    pool->caller_query_ctx = vm->query_ctx;
+
+    pool->run_id++;
+    pool->running = B8_TRUE;
+
     // wake up needed executors
     if (executors_count < tasks_count) {
         for (i = 0; i < executors_count; i++)
@@ -399,8 +437,7 @@ obj_p pool_run(pool_p pool) {
             break;
 
         // execute task
-        res = pool_call_task_fn(data.fn, data.argc, data.argv);
-        data.result = res;
+        pool_run_task(pool, &data);
         mpmc_push(pool->result_queue, data);
     }
 
@@ -408,10 +445,13 @@ obj_p pool_run(pool_p pool) {
 
     pool->done_count += i;
 
-    // wait for all tasks to be done
-    while (pool->done_count < tasks_count)
+    // wait for all tasks to be done and for all executors to leave the queues
+    while (pool->done_count < tasks_count || pool->active_count > 0)
         cond_wait(&pool->done, &pool->mutex);
 
+    pool->running = B8_FALSE;
+    pool->caller = NULL;
+
     // collect results
     res = LIST(tasks_count);
 
@@ -438,6 +478,7 @@ obj_p pool_run(pool_p pool) {
         if (IS_ERR(AS_LIST(res)[i])) {
             e = clone_obj(AS_LIST(res)[i]);
             drop_obj(res);
+            vm->err = pool->err;
             return e;
         }
     }
@@ -484,7 +525,8 @@ i64_t pool_split_by(pool_p pool, i64_t input_len, i64_t groups_len) {
 }
 
 i64_t pool_get_executors_count(pool_p pool) {
-    if (pool == NULL)
+    // a task can't start another run
+    if (pool == NULL || rc_sync_get())
         return 1;
     else
         return pool->executors_count;
diff --git a/core/pool.h b/core/pool.h
index cac2f16..9bbdfbb 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -87,6 +87,15 @@ typedef struct pool_t {
     i64_t done_count;        // Number of done VMs
     i64_t executors_count;   // Number of executors
     i64_t tasks_count;       // Number of tasks
+    i64_t active_count;      // Number of executors taking part in the current run
+    i64_t run_id;            // Number of the current run
+    b8_t running;            // The current run is in progress
+    i64_t err_id;            // First failed task of the current run (or -1)
+    err_t err;               // Context of its error
+    vm_p caller;             // VM the current run is started from
+    ctx_t caller_frame;      // its current call
+    i32_t caller_rp;         // depth of its return stack
+    struct query_ctx_t *caller_query_ctx;  // its query context
     mpmc_p task_queue;       // Pool's task queue
     mpmc_p result_queue;     // Pool's result queue
     executor_t executors[];  // Array of executors
-- 
2.43.0


From 15e9d9de5ee5e34b5e448552d5b09dd5d2a2d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 66/98] fix: CSV: floats keep their value, I16, enum and char
 columns are written, fields with the separator, quotes or newlines are quoted
 and read back, last line without newline, CRLF, read-only and empty files,
 unparsable fields are null, memory of the line index

---
 core/io.c | 544 +++++++++++++++++++++++++++++-------------------------
 core/io.h |   6 +-
 2 files changed, 300 insertions(+), 250 deletions(-)

diff --git a/core/io.c b/core/io.c
index 5f87b11..e010c0a 100644
--- a/core/io.c
+++ b/core/io.c
@@ -52,7 +52,7 @@ static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
     if (new_offsets == NULL)
         return NULL;
     memcpy(new_offsets, offsets, line_count * sizeof(i64_t));
-    heap_unmap(offsets, *capacity * sizeof(i64_t));
+    mmap_free(offsets, *capacity * sizeof(i64_t));
     *capacity = new_capacity;
     return new_offsets;
 }
@@ -60,11 +60,12 @@ static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
 // Build line offset index in single pass with SIMD acceleration
 // Returns number of lines, allocates line_offsets_out array
 // line_offsets[i] = byte offset where line i starts (line 0 is first data line after header)
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
+i64_t io_build_line_index(str_p buf, i64_t size, c8_t sep, i64_t **line_offsets_out, i64_t *capacity_out) {
     i64_t capacity;
     i64_t line_count = 0;
     i64_t *offsets;
     i64_t pos = 0;
+    b8_t quoted, start;
 
     // Estimate initial capacity based on average line length (~50 bytes typical for CSV)
     // Add 10% buffer to reduce reallocations
@@ -79,6 +80,34 @@ i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
     // First line starts at offset 0
     offsets[line_count++] = 0;
 
+    // A quoted field may contain newlines
+    if (memchr(buf, '"', size) != NULL) {
+        for (quoted = B8_FALSE, start = B8_TRUE; pos < size; pos++) {
+            if (buf[pos] == '"') {
+                if (quoted)
+                    quoted = B8_FALSE;
+                else if (start || buf[pos - 1] == '"')
+                    quoted = B8_TRUE;
+                start = B8_FALSE;
+                continue;
+            }
+
+            if (quoted)
+                continue;
+
+            start = (buf[pos] == sep || buf[pos] == '\n');
+
+            if (buf[pos] == '\n') {
+                if (line_count >= capacity) {
+                    offsets = grow_offsets(offsets, &capacity, line_count);
+                    if (offsets == NULL)
+                        return -1;
+                }
+                offsets[line_count++] = pos + 1;
+            }
+        }
+    }
+
     // SIMD newline scanning - process 32 bytes at a time
     v32u8 newline_vec = (v32u8){'\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n',
                                  '\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n',
@@ -137,7 +166,18 @@ i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
         pos++;
     }
 
+    // Last line without newline
+    if (size > 0 && offsets[line_count - 1] < size) {
+        if (line_count >= capacity) {
+            offsets = grow_offsets(offsets, &capacity, line_count);
+            if (offsets == NULL)
+                return -1;
+        }
+        offsets[line_count++] = size;
+    }
+
     *line_offsets_out = offsets;
+    *capacity_out = capacity;
     return line_count - 1;  // Number of actual lines (excluding the sentinel offset)
 }
 
@@ -364,104 +404,101 @@ obj_p ray_write(obj_p x, obj_p y) {
     }
 }
 
-obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
+// Removes doubled quotes of a quoted field
+static obj_p csv_unquote(str_p start, i64_t len) {
+    i64_t i, n;
+    obj_p res;
+    str_p out;
+
+    res = C8(len);
+    out = AS_C8(res);
+
+    for (i = 0, n = 0; i < len; i++) {
+        out[n++] = start[i];
+        if (start[i] == '"' && i + 1 < len && start[i + 1] == '"')
+            i++;
+    }
+
+    resize_obj(&res, n);
+
+    return res;
+}
+
+obj_p parse_csv_field(i8_t type, str_p start, str_p end, b8_t escaped, i64_t row, obj_p out) {
     b8_t num_b8 = 0;
     i64_t n, num_i64 = 0;  // Initialize to avoid uninitialized value
+    obj_p str;
+
+    n = (start == NULL || end == NULL) ? 0 : end - start;
 
     switch (type) {
         case TYPE_B8:
-            if (start == NULL || end == NULL) {
-                AS_B8(out)[row] = 0;
-                break;
-            }
-            b8_from_str(start, end - start, &num_b8);
+            if (n > 0)
+                b8_from_str(start, n, &num_b8);
             AS_B8(out)[row] = num_b8;
             break;
         case TYPE_U8:
-            if (start == NULL || end == NULL) {
-                AS_U8(out)[row] = 0;
-                break;
-            }
-            i64_from_str(start, end - start, &num_i64);
+            if (n > 0)
+                i64_from_str(start, n, &num_i64);
             AS_U8(out)[row] = (u8_t)num_i64;
             break;
         case TYPE_I16:
-            if (start == NULL || end == NULL) {
+            if (n == 0 || i64_from_str(start, n, &num_i64) == 0)
                 AS_I16(out)[row] = NULL_I16;
-                break;
-            }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I16(out)[row] = (i16_t)num_i64;
+            else
+                AS_I16(out)[row] = (i16_t)num_i64;
             break;
         case TYPE_I32:
-            if (start == NULL || end == NULL) {
+            if (n == 0 || i32_from_str(start, n, &AS_I32(out)[row]) == 0)
                 AS_I32(out)[row] = NULL_I32;
-                break;
-            }
-            i32_from_str(start, end - start, &AS_I32(out)[row]);
             break;
         case TYPE_DATE:
-            if (start == NULL || end == NULL) {
+            if (n == 0)
                 AS_DATE(out)[row] = NULL_I32;
-                break;
-            }
-            AS_DATE(out)[row] = date_into_i32(date_from_str(start, end - start));
+            else
+                AS_DATE(out)[row] = date_into_i32(date_from_str(start, n));
             break;
         case TYPE_TIME:
-            if (start == NULL || end == NULL) {
+            if (n == 0)
                 AS_TIME(out)[row] = NULL_I32;
-                break;
-            }
-            AS_TIME(out)[row] = time_into_i32(time_from_str(start, end - start));
+            else
+                AS_TIME(out)[row] = time_into_i32(time_from_str(start, n));
             break;
         case TYPE_I64:
-            if (start == NULL || end == NULL) {
+            if (n == 0 || i64_from_str(start, n, &num_i64) == 0)
                 AS_I64(out)[row] = NULL_I64;
-                break;
-            }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I64(out)[row] = num_i64;
+            else
+                AS_I64(out)[row] = num_i64;
             break;
         case TYPE_TIMESTAMP:
-            if (start == NULL || end == NULL) {
+            if (n == 0)
                 AS_TIMESTAMP(out)[row] = NULL_I64;
-                break;
-            }
-            AS_TIMESTAMP(out)[row] = timestamp_into_i64(timestamp_from_str(start, end - start));
+            else
+                AS_TIMESTAMP(out)[row] = timestamp_into_i64(timestamp_from_str(start, n));
             break;
         case TYPE_F64:
-            if (start == NULL || end == NULL) {
+            if (n == 0 || f64_from_str(start, n, &AS_F64(out)[row]) == 0)
                 AS_F64(out)[row] = NULL_F64;
-                break;
-            }
-            f64_from_str(start, end - start, &AS_F64(out)[row]);
             break;
         case TYPE_SYMBOL:
-            if (start == NULL || end == NULL) {
-                AS_SYMBOL(out)[row] = 0;
+            if (n == 0) {
+                AS_SYMBOL(out)[row] = NULL_I64;
+                break;
+            }
+            if (escaped) {
+                str = csv_unquote(start, n);
+                AS_SYMBOL(out)[row] = symbols_intern(AS_C8(str), str->len);
+                drop_obj(str);
                 break;
             }
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-
             AS_SYMBOL(out)[row] = symbols_intern(start, n);
             break;
         case TYPE_C8:
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-            AS_LIST(out)[row] = string_from_str(start, n);
+            AS_LIST(out)[row] = escaped ? csv_unquote(start, n) : string_from_str(start, n);
             break;
         case TYPE_GUID:
-            if (start == NULL || end == NULL) {
-                memcpy(AS_GUID(out)[row], NULL_GUID, sizeof(guid_t));
-                break;
-            }
-            if (guid_from_str(start, end - start, AS_GUID(out)[row]) == -1) {
+            if (n == 0 || guid_from_str(start, n, AS_GUID(out)[row]) == -1)
                 memcpy(AS_GUID(out)[row], NULL_GUID, sizeof(guid_t));
-                break;
-            }
             break;
         default:
             return err_type(TYPE_LIST, type, 0, 0);
@@ -471,13 +508,18 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
 }
 
 obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row, obj_p cols, c8_t sep) {
-    i64_t i, len;
+    i64_t i;
     str_p prev, pos;
+    b8_t escaped;
     obj_p res;
 
     for (i = 0, pos = start; i < cnt; i++) {
-        if (pos == NULL || end == NULL) {
-            res = parse_csv_field(types[i], NULL, NULL, row, AS_LIST(cols)[i]);
+        // there is nothing after the previous field
+        if (pos > end)
+            return err_length(0, 0, 0, 0, 0, 0);
+
+        if (pos == end) {
+            res = parse_csv_field(types[i], NULL, NULL, B8_FALSE, row, AS_LIST(cols)[i]);
 
             if (!is_null(res))
                 return res;
@@ -485,43 +527,41 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
             continue;
         }
 
-        len = end - pos;
         prev = pos;
 
         // quoted field?
-        if (len > 0 && *prev == '"') {
+        if (*prev == '"') {
             prev++;
-            pos = (str_p)memchr(prev, '"', len - 1);
+            escaped = B8_FALSE;
 
-            if (pos == NULL)
-                return err_length(0, 0, 0, 0, 0, 0);
+            // closing quote, doubled ones are a part of the field
+            for (pos = prev;; pos += 2) {
+                pos = (str_p)memchr(pos, '"', end - pos);
 
-            res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
-            pos += 2;  // skip quote and comma
+                if (pos == NULL)
+                    return err_length(0, 0, 0, 0, 0, 0);
 
-            if (!is_null(res))
-                return res;
+                if (pos + 1 >= end || pos[1] != '"')
+                    break;
 
-            continue;
-        }
+                escaped = B8_TRUE;
+            }
 
-        if (len == 0) {
-            res = parse_csv_field(types[i], NULL, NULL, row, AS_LIST(cols)[i]);
+            res = parse_csv_field(types[i], prev, pos, escaped, row, AS_LIST(cols)[i]);
 
             if (!is_null(res))
                 return res;
 
+            pos += 2;  // skip quote and comma
+
             continue;
         }
 
-        pos = (str_p)memchr(pos, sep, len);
-        if (pos == NULL) {
-            if (i < cnt - 1)
-                return err_length(0, 0, 0, 0, 0, 0);
+        pos = (str_p)memchr(pos, sep, end - pos);
+        if (pos == NULL)
             pos = end;
-        }
 
-        res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
+        res = parse_csv_field(types[i], prev, pos, B8_FALSE, row, AS_LIST(cols)[i]);
 
         if (!is_null(res))
             return res;
@@ -532,63 +572,50 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
     return NULL_OBJ;
 }
 
-obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_t lines, i64_t start_line, obj_p cols,
-                      c8_t sep) {
-    i64_t i, j, k, l;
+obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t line_offsets[], i64_t lines, i64_t start_line,
+                      obj_p cols, c8_t sep) {
+    i64_t i;
     str_p line_end, prev;
     obj_p res = NULL_OBJ;
 
-    for (i = 0, prev = buf; i < lines; i++) {
+    for (i = start_line; i < start_line + lines; i++) {
+        prev = buf + line_offsets[i];
+        line_end = buf + line_offsets[i + 1];
+
         // Prefetch next cache lines for better memory access patterns
-        if (i + 1 < lines)
-            __builtin_prefetch(prev + 256, 0, 1);
-
-        line_end = (str_p)memchr(prev, '\n', buf + size - prev);
-        if (line_end == NULL) {
-            line_end = buf + size;  // Handle last line without newline
-            if (line_end > prev && *(line_end - 1) == '\r')
-                line_end--;  // Handle carriage return
-        }
+        __builtin_prefetch(prev + 256, 0, 1);
 
-        res = parse_csv_line(types, num_types, prev, line_end, start_line + i, cols, sep);
+        if (line_end > prev && *(line_end - 1) == '\n')
+            line_end--;
+        if (line_end > prev && *(line_end - 1) == '\r')
+            line_end--;  // Handle carriage return
 
-        if (res != NULL_OBJ) {
-            l = cols->len;
-            for (j = 0; j < l; j++) {
-                // Need to free allocated objects in case of compound type
-                if (AS_LIST(cols)[j]->type == TYPE_LIST) {
-                    for (k = 0; k < i; k++) {
-                        drop_obj(AS_LIST(AS_LIST(cols)[j])[k]);
-                    }
-                }
-                return res;
-            }
-        }
+        res = parse_csv_line(types, num_types, prev, line_end, i, cols, sep);
 
-        prev = line_end + 1;  // Move past the newline
+        if (res != NULL_OBJ)
+            return res;
     }
 
     return NULL_OBJ;  // Success
 }
 
-obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
-                  obj_p cols, c8_t sep) {
+obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t total_lines, i64_t *line_offsets, obj_p cols,
+                  c8_t sep) {
     obj_p err, res = NULL_OBJ;
-    i64_t i, l, batch_size, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
-    str_p batch_start, batch_end;
+    i64_t i, l, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
     pool_p pool = runtime_get()->pool;
 
     num_batches = pool_split_by(pool, total_lines, 0);
 
     if (num_batches == 1)
-        return parse_csv_range(types, num_types, buf, size, total_lines, 0, cols, sep);
+        return parse_csv_range(types, num_types, buf, line_offsets, total_lines, 0, cols, sep);
 
     pool_prepare(pool);
 
     // --- PAGE-ALIGNED CHUNKING ---
     i64_t page_size = RAY_PAGE_SIZE;
     // Estimate average line length (avoid div by zero)
-    i64_t avg_line_len = size / (total_lines ? total_lines : 1);
+    i64_t avg_line_len = (line_offsets[total_lines] - line_offsets[0]) / (total_lines ? total_lines : 1);
     i64_t lines_per_page = (avg_line_len > 0) ? (page_size / avg_line_len) : 1;
     if (lines_per_page == 0)
         lines_per_page = 1;
@@ -602,21 +629,15 @@ obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t tot
             end_line = total_lines;
         lines_in_batch = end_line - start_line;
 
-        // O(1) batch boundary lookup using line offset index
-        batch_start = buf + line_offsets[start_line];
-        batch_end = buf + line_offsets[end_line];  // end_line offset points to start of next batch
-
-        // Handle edge case for last batch
-        if (end_line >= total_lines)
-            batch_end = buf + size;
-
-        batch_size = batch_end - batch_start;
-        pool_add_task(pool, (raw_p)parse_csv_range, 8, types, num_types, batch_start, batch_size, lines_in_batch,
-                      start_line, cols, sep);
+        pool_add_task(pool, (raw_p)parse_csv_range, 8, types, num_types, buf, line_offsets, lines_in_batch, start_line,
+                      cols, sep);
     }
 
     res = pool_run(pool);
 
+    if (IS_ERR(res))
+        return res;
+
     l = res->len;
     for (i = 0; i < l; i++) {
         if (IS_ERR(AS_LIST(res)[i])) {
@@ -669,9 +690,9 @@ i64_t io_symbol_from_str_trimmed(str_p src, i64_t len) {
 
 obj_p ray_read_csv(obj_p *x, i64_t n) {
     i64_t fd, size;
-    i64_t i, l, len, lines, line_index_capacity;
+    i64_t i, j, l, len, lines, line_index_capacity;
     i64_t *line_offsets = NULL;
-    str_p buf, prev, pos, line;
+    str_p buf, prev, pos;
     obj_p types, names, cols, path, res;
     i8_t type;
     c8_t sep = ',';
@@ -706,11 +727,16 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 if (type < 0)
                     type = -type;
 
+                if (type < TYPE_B8 || type > TYPE_C8) {
+                    drop_obj(types);
+                    return err_type(TYPE_LIST, type, 0, 0);
+                }
+
                 types->raw[i] = type;
             }
 
             path = cstring_from_obj(x[1]);
-            fd = fs_fopen(AS_C8(path), ATTR_RDWR);
+            fd = fs_fopen(AS_C8(path), ATTR_RDONLY);
 
             if (fd == -1) {
                 drop_obj(types);
@@ -719,45 +745,41 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 return res;
             }
 
+            drop_obj(path);
+
             size = fs_fsize(fd);
 
-            if (size == -1) {
+            if (size <= 0) {
                 drop_obj(types);
                 fs_fclose(fd);
-                drop_obj(path);
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
             buf = (str_p)mmap_file(fd, NULL, size, 0);
+            fs_fclose(fd);
 
             if (buf == NULL) {
                 drop_obj(types);
-                fs_fclose(fd);
                 return err_os();
             }
 
             // Build line offset index in single pass (replaces separate line counting + batch scanning)
-            lines = io_build_line_index(buf, size, &line_offsets);
+            lines = io_build_line_index(buf, size, sep, &line_offsets, &line_index_capacity);
 
             if (lines <= 0 || line_offsets == NULL) {
                 drop_obj(types);
-                fs_fclose(fd);
                 mmap_free(buf, size);
-                drop_obj(path);
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
-            // Calculate capacity for cleanup (next power of 2 >= lines+1)
-            line_index_capacity = 1024;
-            while (line_index_capacity < lines + 2)
-                line_index_capacity *= 2;
-
             // parse header (line 0)
             pos = buf + line_offsets[1];  // End of header line
             if (pos > buf && *(pos - 1) == '\n')
                 pos--;
+            // truncate \r (if any)
+            if (pos > buf && *(pos - 1) == '\r')
+                pos--;
             len = pos - buf;
-            line = buf + line_offsets[1];  // Start of data (first line after header)
 
             names = SYMBOL(l);
             pos = buf;
@@ -769,16 +791,12 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                     if (i < l - 1) {
                         drop_obj(types);
                         drop_obj(names);
-                        fs_fclose(fd);
                         mmap_free(buf, size);
-                        heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
+                        mmap_free(line_offsets, line_index_capacity * sizeof(i64_t));
                         return err_length(0, 0, 0, 0, 0, 0);
                     }
 
                     pos = prev + len;
-                    // truncate \r (if any)
-                    if ((len > 0) && (pos[-1] == '\r'))
-                        pos--;
                 }
 
                 AS_SYMBOL(names)[i] = io_symbol_from_str_trimmed(prev, pos - prev);
@@ -786,53 +804,30 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 len -= (pos - prev);
             }
 
-            if (i != l) {
-                drop_obj(types);
-                drop_obj(names);
-                fs_fclose(fd);
-                mmap_free(buf, size);
-                drop_obj(path);
-                heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
-                return err_length(0, 0, 0, 0, 0, 0);
-            }
-
             // exclude header from line count
             lines--;
 
-            // Adjust line_offsets to be relative to data start (skip header)
-            // Shift offsets so index 0 = first data line
-            {
-                i64_t data_start = line_offsets[1];  // Save before modification
-                for (i = 0; i <= lines; i++) {
-                    line_offsets[i] = line_offsets[i + 1] - data_start;
-                }
-            }
-
             // allocate columns
             cols = LIST(l);
             for (i = 0; i < l; i++) {
-                if (AS_C8(types)[i] == TYPE_C8)
+                if (AS_C8(types)[i] == TYPE_C8) {
                     AS_LIST(cols)[i] = LIST(lines);
-                else
+                    for (j = 0; j < lines; j++)
+                        AS_LIST(AS_LIST(cols)[i])[j] = NULL_OBJ;
+                } else
                     AS_LIST(cols)[i] = vector(AS_C8(types)[i], lines);
             }
 
-            // parse lines using O(1) batch boundary lookups
-            res = io_read_csv((i8_t *)AS_U8(types), l, line, size - (line - buf), lines, line_offsets, cols, sep);
+            // parse lines, skip the header
+            res = io_read_csv((i8_t *)AS_U8(types), l, buf, lines, line_offsets + 1, cols, sep);
 
             // Cleanup
             drop_obj(types);
-            fs_fclose(fd);
             mmap_free(buf, size);
-            drop_obj(path);
-            heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
+            mmap_free(line_offsets, line_index_capacity * sizeof(i64_t));
 
             if (!is_null(res)) {
                 drop_obj(names);
-                l = cols->len;
-                for (i = 0; i < l; i++)
-                    AS_LIST(cols)[i]->len = 0;
-
                 drop_obj(cols);
                 return res;
             }
@@ -843,109 +838,162 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
     }
 }
 
-static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
-    i64_t n;
+static nil_t csv_put_str(obj_p *dst, lit_p str, i64_t len) {
+    i64_t l;
+
+    if (len == 0)
+        return;
+
+    l = (*dst)->len;
+    resize_obj(dst, l + len);
+    memcpy(AS_C8(*dst) + l, str, len);
+}
+
+// Puts a field into quotes when it can't be written as is
+static nil_t csv_quote_field(obj_p *dst, i64_t start, c8_t sep) {
+    i64_t i, j, l, quotes = 0;
+    b8_t need_quote = B8_FALSE;
     str_p s;
-    obj_p str_obj;
+
+    l = (*dst)->len;
+    s = AS_C8(*dst);
+
+    for (i = start; i < l; i++) {
+        if (s[i] == '"')
+            quotes++;
+        if (s[i] == sep || s[i] == '"' || s[i] == '\n' || s[i] == '\r')
+            need_quote = B8_TRUE;
+    }
+
+    if (!need_quote)
+        return;
+
+    resize_obj(dst, l + quotes + 2);
+    s = AS_C8(*dst);
+
+    j = l + quotes + 2;
+    s[--j] = '"';
+    for (i = l - 1; i >= start; i--) {
+        s[--j] = s[i];
+        if (s[i] == '"')
+            s[--j] = '"';
+    }
+    s[--j] = '"';
+}
+
+static nil_t csv_obj_to_str(obj_p obj, obj_p *dst) {
+    lit_p s;
+    obj_p fmt;
+
+    switch (obj->type) {
+        case TYPE_NULL:
+            break;
+        case TYPE_C8:
+            csv_put_str(dst, AS_C8(obj), obj->len);
+            break;
+        case -TYPE_C8:
+            csv_put_str(dst, &obj->c8, 1);
+            break;
+        case -TYPE_SYMBOL:
+            if (obj->i64 == NULL_I64)
+                break;
+            s = str_from_symbol(obj->i64);
+            csv_put_str(dst, s, strlen(s));
+            break;
+        default:
+            fmt = obj_fmt(obj, B8_TRUE);
+            csv_put_str(dst, AS_C8(fmt), fmt->len);
+            drop_obj(fmt);
+            break;
+    }
+}
+
+static nil_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
+    lit_p s;
+    c8_t num[32];
+    obj_p item;
 
     switch (col->type) {
         case TYPE_B8:
-            return AS_B8(col)[row] ? str_fmt_into(dst, -1, "true") : str_fmt_into(dst, -1, "false");
+            csv_put_str(dst, AS_B8(col)[row] ? "true" : "false", AS_B8(col)[row] ? 4 : 5);
+            break;
         case TYPE_U8:
-            return str_fmt_into(dst, -1, "%u", AS_U8(col)[row]);
+            str_fmt_into(dst, -1, "%u", AS_U8(col)[row]);
+            break;
+        case TYPE_I16:
+            if (AS_I16(col)[row] != NULL_I16)
+                str_fmt_into(dst, -1, "%d", AS_I16(col)[row]);
+            break;
         case TYPE_I32:
-            if (AS_I32(col)[row] == NULL_I32)
-                return 0;
-            return str_fmt_into(dst, -1, "%d", AS_I32(col)[row]);
+            if (AS_I32(col)[row] != NULL_I32)
+                str_fmt_into(dst, -1, "%d", AS_I32(col)[row]);
+            break;
         case TYPE_DATE:
-            if (AS_DATE(col)[row] == NULL_I32)
-                return 0;
-            {
+            if (AS_DATE(col)[row] != NULL_I32) {
                 datestruct_t dt = date_from_i32(AS_DATE(col)[row]);
-                return str_fmt_into(dst, -1, "%.4d.%.2d.%.2d", dt.year, dt.month, dt.day);
+                str_fmt_into(dst, -1, "%.4d.%.2d.%.2d", dt.year, dt.month, dt.day);
             }
+            break;
         case TYPE_TIME:
-            if (AS_TIME(col)[row] == NULL_I32)
-                return 0;
-            {
+            if (AS_TIME(col)[row] != NULL_I32) {
                 timestruct_t tm = time_from_i32(AS_TIME(col)[row]);
                 if (tm.sign == -1)
-                    return str_fmt_into(dst, -1, "-%.2d:%.2d:%.2d.%.3d", tm.hours, tm.mins, tm.secs, tm.msecs);
-                return str_fmt_into(dst, -1, "%.2d:%.2d:%.2d.%.3d", tm.hours, tm.mins, tm.secs, tm.msecs);
+                    str_fmt_into(dst, -1, "-%.2d:%.2d:%.2d.%.3d", tm.hours, tm.mins, tm.secs, tm.msecs);
+                else
+                    str_fmt_into(dst, -1, "%.2d:%.2d:%.2d.%.3d", tm.hours, tm.mins, tm.secs, tm.msecs);
             }
+            break;
         case TYPE_I64:
-            if (AS_I64(col)[row] == NULL_I64)
-                return 0;
-            return str_fmt_into(dst, -1, "%lld", AS_I64(col)[row]);
+            if (AS_I64(col)[row] != NULL_I64)
+                str_fmt_into(dst, -1, "%lld", AS_I64(col)[row]);
+            break;
         case TYPE_TIMESTAMP:
-            if (AS_TIMESTAMP(col)[row] == NULL_I64)
-                return 0;
-            {
+            if (AS_TIMESTAMP(col)[row] != NULL_I64) {
                 timestamp_t ts = timestamp_from_i64(AS_TIMESTAMP(col)[row]);
-                return str_fmt_into(dst, -1, "%.4d.%.2d.%.2dD%.2d:%.2d:%.2d.%.9d", ts.year, ts.month, ts.day, ts.hours,
-                                    ts.mins, ts.secs, ts.nanos);
+                str_fmt_into(dst, -1, "%.4d.%.2d.%.2dD%.2d:%.2d:%.2d.%.9d", ts.year, ts.month, ts.day, ts.hours, ts.mins,
+                             ts.secs, ts.nanos);
             }
+            break;
         case TYPE_F64:
             if (ISNANF64(AS_F64(col)[row]))
-                return 0;
-            return str_fmt_into(dst, -1, "%g", AS_F64(col)[row]);
+                break;
+            // shortest form which keeps the value
+            snprintf(num, sizeof(num), "%.15g", AS_F64(col)[row]);
+            if (strtod(num, NULL) != AS_F64(col)[row])
+                snprintf(num, sizeof(num), "%.17g", AS_F64(col)[row]);
+            csv_put_str(dst, num, strlen(num));
+            break;
         case TYPE_SYMBOL:
             if (AS_SYMBOL(col)[row] == NULL_I64)
-                return 0;
+                break;
             s = str_from_symbol(AS_SYMBOL(col)[row]);
-            return str_fmt_into(dst, -1, "%s", s);
+            csv_put_str(dst, s, strlen(s));
+            break;
         case TYPE_C8:
-            // String type - output with quotes if it contains separator or quotes
-            s = AS_C8(col);
-            n = col->len;
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            csv_put_str(dst, AS_C8(col) + row, 1);
+            break;
         case TYPE_LIST:
-            // List of strings
-            str_obj = AS_LIST(col)[row];
-            if (str_obj == NULL_OBJ || str_obj->type == TYPE_NULL)
-                return 0;
-            s = AS_C8(str_obj);
-            n = str_obj->len;
-            // Check if we need to quote (contains separator, newline, or quote)
-            {
-                i64_t i;
-                b8_t need_quote = B8_FALSE;
-                for (i = 0; i < n; i++) {
-                    if (s[i] == ',' || s[i] == '"' || s[i] == '\n' || s[i] == '\r') {
-                        need_quote = B8_TRUE;
-                        break;
-                    }
-                }
-                if (need_quote) {
-                    i64_t m = str_fmt_into(dst, -1, "\"");
-                    for (i = 0; i < n; i++) {
-                        if (s[i] == '"')
-                            m += str_fmt_into(dst, -1, "\"\"");
-                        else
-                            m += str_fmt_into(dst, -1, "%c", s[i]);
-                    }
-                    m += str_fmt_into(dst, -1, "\"");
-                    return m;
-                }
-            }
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            csv_obj_to_str(AS_LIST(col)[row], dst);
+            break;
         case TYPE_GUID:
-            if (memcmp(AS_GUID(col)[row], NULL_GUID, sizeof(guid_t)) == 0)
-                return 0;
-            {
+            if (memcmp(AS_GUID(col)[row], NULL_GUID, sizeof(guid_t)) != 0) {
                 guid_t *g = &AS_GUID(col)[row];
-                return str_fmt_into(dst, -1, "%02hhx%02hhx%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x",
-                                    (*g)[0], (*g)[1], (*g)[2], (*g)[3], (*g)[4], (*g)[5], (*g)[6], (*g)[7], (*g)[8],
-                                    (*g)[9], (*g)[10], (*g)[11], (*g)[12], (*g)[13], (*g)[14], (*g)[15]);
+                str_fmt_into(dst, -1, "%02hhx%02hhx%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x",
+                             (*g)[0], (*g)[1], (*g)[2], (*g)[3], (*g)[4], (*g)[5], (*g)[6], (*g)[7], (*g)[8], (*g)[9],
+                             (*g)[10], (*g)[11], (*g)[12], (*g)[13], (*g)[14], (*g)[15]);
             }
+            break;
         default:
-            return 0;
+            item = at_idx(col, row);
+            csv_obj_to_str(item, dst);
+            drop_obj(item);
+            break;
     }
 }
 
 obj_p ray_write_csv(obj_p *x, i64_t n) {
     i64_t fd, c;
-    i64_t i, j, l, rows;
+    i64_t i, j, l, rows, start;
     obj_p table, path, names, cols, col, buf, res;
     c8_t sep = ',';
 
@@ -987,7 +1035,7 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
                 return res;
             }
 
-            buf = NULL_OBJ;
+            buf = C8(0);
 
             // Write header row
             for (i = 0; i < l; i++) {
@@ -1001,7 +1049,9 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
             for (j = 0; j < rows; j++) {
                 for (i = 0; i < l; i++) {
                     col = AS_LIST(cols)[i];
+                    start = buf->len;
                     csv_field_to_str(col, j, &buf);
+                    csv_quote_field(&buf, start, sep);
                     if (i < l - 1)
                         str_fmt_into(&buf, -1, "%c", sep);
                 }
diff --git a/core/io.h b/core/io.h
index 3ee9e67..703d854 100644
--- a/core/io.h
+++ b/core/io.h
@@ -40,9 +40,9 @@ obj_p io_get_symfile(obj_p path);
 obj_p io_set_table(obj_p path, obj_p table);
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile);
 obj_p io_get_table_splayed(obj_p path, obj_p symfile);
-obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
-                  obj_p cols, c8_t sep);
+obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t total_lines, i64_t *line_offsets, obj_p cols,
+                  c8_t sep);
 i64_t io_symbol_from_str_trimmed(str_p src, i64_t len);
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out);
+i64_t io_build_line_index(str_p buf, i64_t size, c8_t sep, i64_t **line_offsets_out, i64_t *capacity_out);
 
 #endif  // IO_H
-- 
2.43.0


From d52168778a8bcc7203bcef96fc6f5ad3b7f9374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:41 +0000
Subject: [PATCH 67/98] fix: values kept in files: a file is replaced instead
 of overwritten in place, headers are checked, files are closed, loaded lists
 and enums work with more verbs and can be stored again, a loaded list frees
 its data once, symbol files follow the table read

---
 core/binary.c   | 270 +++++++++++++++---------------------------------
 core/cmp.c      |  56 +++++-----
 core/compose.c  |  77 ++++++++------
 core/fs.c       |  42 ++++++--
 core/fs.h       |   1 +
 core/io.c       | 215 +++++++++++++++++++++++---------------
 core/io.h       |   1 +
 core/items.c    | 151 ++++++++++-----------------
 core/iter.c     |  21 +++-
 core/logic.c    |  10 +-
 core/ops.c      |   4 +-
 core/rayforce.c |   4 +-
 core/unary.c    | 119 ++++++++++++++-------
 core/vary.c     |  15 +--
 14 files changed, 494 insertions(+), 492 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 41fa89f..9073ece 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -32,6 +32,7 @@
 #include "string.h"
 #include "io.h"
 #include "iter.h"
+#include "items.h"
 
 obj_p binary_call(obj_p f, obj_p x, obj_p y) {
     binary_f fn;
@@ -49,12 +50,42 @@ obj_p binary_call(obj_p f, obj_p x, obj_p y) {
     }
 }
 
+// Writes a file out of its parts: the first page of a compound value is given by a name
+static obj_p set_file(obj_p x, lit_p name, str_p head, i64_t hsize, str_p data, i64_t dsize) {
+    i64_t c, fd;
+    obj_p res, path;
+    c8_t page[RAY_PAGE_SIZE] = {0};
+
+    if (name != NULL) {
+        if (strlen(name) >= RAY_PAGE_SIZE - sizeof(struct obj_t))
+            return err_length(0, 0, 0, 0, 0, 0);
+
+        ((obj_p)page)->mmod = MMOD_EXTERNAL_COMPOUND;
+        strcpy(AS_C8((obj_p)page), name);
+    }
+
+    path = cstring_from_obj(x);
+    fd = fs_freplace(AS_C8(path));
+    drop_obj(path);
+
+    if (fd == -1)
+        return err_os();
+
+    c = (name != NULL) ? fs_fwrite(fd, page, RAY_PAGE_SIZE) : 0;
+    c = (c == -1) ? c : fs_fwrite(fd, head, hsize);
+    c = (c == -1) ? c : fs_fwrite(fd, data, dsize);
+
+    res = (c == -1) ? err_os() : clone_obj(x);
+    fs_fclose(fd);
+
+    return res;
+}
+
 obj_p binary_set(obj_p x, obj_p y) {
-    i64_t fd, c = 0;
     i64_t i, l, sz, size;
     u8_t *b;
-    obj_p res, col, s, p, k, v, e, path, buf;
-    c8_t objbuf[RAY_PAGE_SIZE] = {0};
+    obj_p res, col, s, k, v, buf;
+    struct obj_t header;
 
     switch (x->type) {
         case -TYPE_SYMBOL:
@@ -71,123 +102,55 @@ obj_p binary_set(obj_p x, obj_p y) {
             return clone_obj(y);
 
         case TYPE_C8:
+            if (x->len == 0)
+                return err_type(0, 0, 0, 0);
+
             switch (y->type) {
+                case TYPE_TABLE:
+                    return io_set_table(x, y);
                 case TYPE_SYMBOL:
-                    path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
-
-                    if (fd == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
                     buf = ser_obj(y);
-
-                    if (IS_ERR(buf)) {
-                        fs_fclose(fd);
-                        drop_obj(path);
+                    if (IS_ERR(buf))
                         return buf;
-                    }
 
-                    c = fs_fwrite(fd, (str_p)AS_U8(buf), buf->len);
-                    fs_fclose(fd);
+                    res = set_file(x, NULL, AS_C8(buf), buf->len, NULL, 0);
                     drop_obj(buf);
 
-                    if (c == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    drop_obj(path);
-
-                    return clone_obj(x);
-                case TYPE_TABLE:
-                    return io_set_table(x, y);
+                    return res;
                 case TYPE_ENUM:
-                    path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                    v = ray_key(y);
+                    memset(&header, 0, sizeof(struct obj_t));
+                    header.type = TYPE_ENUM;
+                    header.len = ENUM_VAL(y)->len;
 
-                    if (fd == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    if (IS_EXTERNAL_COMPOUND(y)) {
-                        size = RAY_PAGE_SIZE + sizeof(struct obj_t) + y->len * sizeof(i64_t);
-
-                        c = fs_fwrite(fd, (str_p)y - RAY_PAGE_SIZE, size);
-                        fs_fclose(fd);
-
-                        if (c == -1) {
-                            res = err_os();
-                            drop_obj(path);
-                            return res;
-                        }
+                    res = set_file(x, str_from_symbol(v->i64), (str_p)&header, sizeof(struct obj_t), AS_C8(ENUM_VAL(y)),
+                                   header.len * ISIZEOF(i64_t));
+                    drop_obj(v);
 
-                        drop_obj(path);
-
-                        return clone_obj(x);
-                    }
-
-                    memset(objbuf, 0, RAY_PAGE_SIZE);
-                    p = (obj_p)objbuf;
-                    strncpy(AS_C8(p), str_from_symbol(AS_LIST(y)[0]->i64), RAY_PAGE_SIZE - sizeof(struct obj_t));
-                    p->mmod = MMOD_EXTERNAL_COMPOUND;
-
-                    c = fs_fwrite(fd, objbuf, RAY_PAGE_SIZE);
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    p->type = TYPE_ENUM;
-                    p->len = AS_LIST(y)[1]->len;
-
-                    c = fs_fwrite(fd, objbuf, sizeof(struct obj_t));
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
+                    return res;
+                case TYPE_MAPLIST:
+                    v = ray_value(y);
+                    if (IS_ERR(v))
+                        return v;
 
-                    size = AS_LIST(y)[1]->len * sizeof(i64_t);
-
-                    c = fs_fwrite(fd, AS_C8(AS_LIST(y)[1]), size);
-                    fs_fclose(fd);
-
-                    if (c == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    drop_obj(path);
-
-                    return clone_obj(x);
+                    res = binary_set(x, v);
+                    drop_obj(v);
 
+                    return res;
                 case TYPE_LIST:
-                    s = cstring_from_str("#", 1);
-                    col = ray_concat(x, s);
-                    drop_obj(s);
-
                     l = y->len;
-                    size = size_obj(y) - sizeof(i8_t) - sizeof(i64_t);
-                    buf = U8(size);
+                    size = size_obj(y);
+                    if (size == 0)
+                        return err_type(0, 0, 0, 0);
+
+                    buf = U8(size - ISIZEOF(i8_t) - 1 - ISIZEOF(i64_t));
                     b = AS_U8(buf);
                     k = I64(l);
 
                     for (i = 0, size = 0; i < l; i++) {
-                        v = AS_LIST(y)[i];
-                        sz = ser_raw(b, v);
+                        sz = ser_raw(b, AS_LIST(y)[i]);
 
                         if (sz == 0) {
-                            drop_obj(col);
                             drop_obj(buf);
                             drop_obj(k);
 
@@ -200,110 +163,41 @@ obj_p binary_set(obj_p x, obj_p y) {
                         b += sz;
                     }
 
+                    s = cstring_from_str("#", 1);
+                    col = ray_concat(x, s);
                     res = binary_set(col, buf);
-
+                    drop_obj(s);
                     drop_obj(col);
                     drop_obj(buf);
 
-                    if (IS_ERR(res))
+                    if (IS_ERR(res)) {
+                        drop_obj(k);
                         return res;
+                    }
 
                     drop_obj(res);
 
                     // save anymap
-                    path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
-
-                    if (fd == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    memset(objbuf, 0, RAY_PAGE_SIZE);
-                    p = (obj_p)objbuf;
-
-                    p->mmod = MMOD_EXTERNAL_COMPOUND;
+                    memset(&header, 0, sizeof(struct obj_t));
+                    header.type = TYPE_MAPLIST;
+                    header.len = l;
 
-                    c = fs_fwrite(fd, objbuf, RAY_PAGE_SIZE);
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    p->type = TYPE_MAPLIST;
-                    p->len = y->len;
-
-                    c = fs_fwrite(fd, objbuf, sizeof(struct obj_t));
-                    if (c == -1) {
-                        res = err_os();
-                        fs_fclose(fd);
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    size = k->len * sizeof(i64_t);
-
-                    c = fs_fwrite(fd, AS_C8(k), size);
+                    res = set_file(x, "", (str_p)&header, sizeof(struct obj_t), AS_C8(k), l * ISIZEOF(i64_t));
                     drop_obj(k);
-                    fs_fclose(fd);
-
-                    if (c == -1) {
-                        res = err_os();
-                        drop_obj(path);
-                        return res;
-                    }
-
-                    drop_obj(path);
 
-                    return clone_obj(x);
+                    return res;
 
                 default:
                     if (IS_VECTOR(y)) {
-                        path = cstring_from_obj(x);
-                        fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
-
-                        if (fd == -1) {
-                            res = err_os();
-                            drop_obj(path);
-                            return res;
-                        }
-
                         // Create a clean struct obj_t header to avoid writing uninitialized bytes
-                        struct obj_t clean_header;
-                        memset(&clean_header, 0, sizeof(struct obj_t));
-                        clean_header.mmod = MMOD_EXTERNAL_SIMPLE;
-                        clean_header.order = 0;
-                        clean_header.type = y->type;
-                        clean_header.attrs = y->attrs;
-                        clean_header.rc = 0;
-                        clean_header.len = y->len;
-
-                        // Write the clean header
-                        c = fs_fwrite(fd, (str_p)&clean_header, sizeof(struct obj_t));
-                        if (c == -1) {
-                            e = err_os();
-                            drop_obj(path);
-                            fs_fclose(fd);
-                            return e;
-                        }
-
-                        // Write the data
-                        size = y->len * size_of_type(y->type);
-                        c = fs_fwrite(fd, AS_C8(y), size);
-                        if (c == -1) {
-                            e = err_os();
-                            drop_obj(path);
-                            fs_fclose(fd);
-                            return e;
-                        }
-
-                        drop_obj(path);
-                        fs_fclose(fd);
-
-                        return clone_obj(x);
+                        memset(&header, 0, sizeof(struct obj_t));
+                        header.mmod = MMOD_EXTERNAL_SIMPLE;
+                        header.type = y->type;
+                        header.attrs = y->attrs;
+                        header.len = y->len;
+
+                        return set_file(x, NULL, (str_p)&header, sizeof(struct obj_t), AS_C8(y),
+                                        y->len * size_of_type(y->type));
                     }
 
                     return err_type(0, 0, 0, 0);
diff --git a/core/cmp.c b/core/cmp.c
index 82483f5..97601e0 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -359,30 +359,30 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
-                        memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
-                    } else {
-                        AS_I64(vec)[i] = NULL_I64;
-                    }
+                    if (buf[0] != (u8_t)(-TYPE_I64))
+                        break;
+                    memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
                 }
-                res = cmp_map(op, vec, y);
+                // an element of another type needs full materialization
+                res = (i < l) ? NULL_OBJ : cmp_map(op, vec, y);
                 drop_obj(vec);
-                return res;
+                if (i == l)
+                    return res;
             }
             // If MAPLIST contains f64 atoms, extract directly to typed vector
             if (elem_type == -TYPE_F64 && y->type == -TYPE_F64) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
-                        memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
-                    } else {
-                        AS_F64(vec)[i] = NULL_F64;
-                    }
+                    if (buf[0] != (u8_t)(-TYPE_F64))
+                        break;
+                    memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
                 }
-                res = cmp_map(op, vec, y);
+                // an element of another type needs full materialization
+                res = (i < l) ? NULL_OBJ : cmp_map(op, vec, y);
                 drop_obj(vec);
-                return res;
+                if (i == l)
+                    return res;
             }
         }
         // Fall back to full materialization for other types
@@ -413,29 +413,29 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
-                        memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
-                    } else {
-                        AS_I64(vec)[i] = NULL_I64;
-                    }
+                    if (buf[0] != (u8_t)(-TYPE_I64))
+                        break;
+                    memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
                 }
-                res = cmp_map(op, x, vec);
+                // an element of another type needs full materialization
+                res = (i < l) ? NULL_OBJ : cmp_map(op, x, vec);
                 drop_obj(vec);
-                return res;
+                if (i == l)
+                    return res;
             }
             if (elem_type == -TYPE_F64 && x->type == -TYPE_F64) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
-                        memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
-                    } else {
-                        AS_F64(vec)[i] = NULL_F64;
-                    }
+                    if (buf[0] != (u8_t)(-TYPE_F64))
+                        break;
+                    memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
                 }
-                res = cmp_map(op, x, vec);
+                // an element of another type needs full materialization
+                res = (i < l) ? NULL_OBJ : cmp_map(op, x, vec);
                 drop_obj(vec);
-                return res;
+                if (i == l)
+                    return res;
             }
         }
         v = ray_value(y);
diff --git a/core/compose.c b/core/compose.c
index 0c4824b..37bea79 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -301,7 +301,7 @@ obj_p ray_table(obj_p x, obj_p y) {
                 break;
             case TYPE_ENUM:
                 synergy = B8_FALSE;
-                j = AS_LIST(AS_LIST(y)[i])[1]->len;
+                j = ENUM_VAL(AS_LIST(y)[i])->len;
                 if (cl != NULL_I64 && j != cl) {
                     drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
@@ -501,6 +501,22 @@ obj_p ray_concat(obj_p x, obj_p y) {
     i64_t i, j, xl, yl;
     obj_p vec, kx, kxy, iy, dy;
 
+    // lazy lists are lists
+    if (x->type == TYPE_MAPLIST || y->type == TYPE_MAPLIST) {
+        kx = (x->type == TYPE_MAPLIST) ? ray_value(x) : clone_obj(x);
+        if (IS_ERR(kx))
+            return kx;
+        iy = (y->type == TYPE_MAPLIST) ? ray_value(y) : clone_obj(y);
+        if (IS_ERR(iy)) {
+            drop_obj(kx);
+            return iy;
+        }
+        vec = ray_concat(kx, iy);
+        drop_obj(kx);
+        drop_obj(iy);
+        return vec;
+    }
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_B8, -TYPE_B8):
             vec = B8(2);
@@ -937,22 +953,11 @@ obj_p ray_distinct(obj_p x) {
             res = enumerate(ray_key(x), res);
             return res;
         case TYPE_MAPLIST: {
-            // MAPLIST has key (mmaped symbol file) and value (byte offsets)
-            // Get distinct indices, then expand to actual values
-            obj_p val = MAPLIST_VAL(x);
-            obj_p key = MAPLIST_KEY(x);
-            i64_t sl = key->len;
-            l = val->len;
-            obj_p distinct_idx = index_distinct_i64(AS_I64(val), l);
-            i64_t dl = distinct_idx->len;
-            res = LIST(dl);
-            for (i64_t i = 0; i < dl; i++) {
-                i64_t offset = AS_I64(distinct_idx)[i];
-                u8_t *buf = AS_U8(key) + offset;
-                i64_t size = sl;
-                AS_LIST(res)[i] = de_raw(buf, &size);
-            }
-            drop_obj(distinct_idx);
+            obj_p val = ray_value(x);
+            if (IS_ERR(val))
+                return val;
+            res = ray_distinct(val);
+            drop_obj(val);
             return res;
         }
         case TYPE_MAPCOMMON:
@@ -960,19 +965,13 @@ obj_p ray_distinct(obj_p x) {
             // The values are already distinct, just return them
             return clone_obj(AS_LIST(x)[0]);
         case TYPE_PARTEDENUM: {
-            // For parted enum, get the domain (unique symbols) from the first partition
-            // All partitions share the same domain, so we just need to load it once
-            if (x->len == 0)
-                return SYMBOL(0);
-            obj_p first_part = AS_LIST(x)[0];
-            obj_p key = ray_key(first_part);
-            if (IS_ERR(key))
-                return key;
-            obj_p domain = ray_get(key);
-            drop_obj(key);
-            if (IS_ERR(domain))
-                return domain;
-            return domain;
+            // All partitions share the same domain, but not necessarily use all of it
+            obj_p syms = ray_value(x);
+            if (IS_ERR(syms))
+                return syms;
+            res = ray_distinct(syms);
+            drop_obj(syms);
+            return res;
         }
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8: {
@@ -1135,6 +1134,15 @@ obj_p ray_distinct(obj_p x) {
 obj_p ray_group(obj_p x) {
     obj_p k, v, index;
 
+    if (x->type == TYPE_MAPLIST) {
+        v = ray_value(x);
+        if (IS_ERR(v))
+            return v;
+        k = ray_group(v);
+        drop_obj(v);
+        return k;
+    }
+
     index = index_group(x, NULL_OBJ);
     if (IS_ERR(index))
         return index;
@@ -1166,6 +1174,15 @@ obj_p ray_raze(obj_p x) {
     obj_p res, *v;
     b8_t all_same_vectors;
 
+    if (x->type == TYPE_MAPLIST) {
+        obj_p val = ray_value(x);
+        if (IS_ERR(val))
+            return val;
+        res = ray_raze(val);
+        drop_obj(val);
+        return res;
+    }
+
     // Not a list → return as-is
     if (x->type != TYPE_LIST)
         return clone_obj(x);
diff --git a/core/fs.c b/core/fs.c
index 2536554..70f10ac 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -71,6 +71,12 @@ i64_t fs_fdelete(lit_p path) {
     return res;
 }
 
+i64_t fs_freplace(lit_p path) {
+    fs_fdelete(path);
+
+    return fs_fopen(path, ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+}
+
 i64_t fs_fsize(i64_t fd) {
     LARGE_INTEGER size;
     if (!GetFileSizeEx((HANDLE)fd, &size))
@@ -209,6 +215,12 @@ i64_t fs_fdelete(lit_p path) {
     return res;
 }
 
+i64_t fs_freplace(lit_p path) {
+    fs_fdelete(path);
+
+    return fs_fopen(path, ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+}
+
 i64_t fs_fsize(i64_t fd) {
     struct stat st;
     if (fstat(fd, &st) == -1)
@@ -301,7 +313,8 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     tmp_path = AS_C8(s);
     p = tmp_path;
 
-    while ((slash = strchr(p + 1, '/')) != NULL) {
+    // directories of a file to be created are created too, but never those of a file just to be read
+    while ((attrs & ATTR_CREAT) && (slash = strchr(p + 1, '/')) != NULL) {
         *slash = '\0';
         fs_dcreate(tmp_path);
         *slash = '/';
@@ -313,6 +326,17 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     return open(path, attrs, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
 }
 
+// Opens a file for a new content: an existing regular file is replaced by another one (instead of being overwritten in
+// place), so values mapped from it stay as they are
+i64_t fs_freplace(lit_p path) {
+    struct stat st;
+
+    if (lstat(path, &st) == 0 && S_ISREG(st.st_mode))
+        unlink(path);
+
+    return fs_fopen(path, ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+}
+
 i64_t fs_fdelete(lit_p path) {
     i64_t res;
     obj_p s;
@@ -334,26 +358,28 @@ i64_t fs_fsize(i64_t fd) {
 i64_t fs_fread(i64_t fd, str_p buf, i64_t size) {
     i64_t c = 0;
 
-    while ((c = read(fd, buf, size - c)) > 0)
-        buf += c;
+    i64_t l = 0;
+
+    while (l < size && (c = read(fd, buf + l, size - l)) > 0)
+        l += c;
 
     if (c == -1)
         return c;
 
-    *buf = '\0';
+    buf[l] = '\0';
 
-    return size;
+    return l;
 }
 
 i64_t fs_fwrite(i64_t fd, str_p buf, i64_t size) {
     i64_t c = 0, l = size;
-    while ((c = write(fd, buf, l)) > 0) {
+    while (l > 0 && (c = write(fd, buf, l)) > 0) {
         buf += c;
         l -= c;
     }
 
-    if (c == -1)
-        return c;
+    if (l > 0)
+        return -1;
 
     return size;
 }
diff --git a/core/fs.h b/core/fs.h
index 033f4c4..4f7ebec 100644
--- a/core/fs.h
+++ b/core/fs.h
@@ -48,6 +48,7 @@
 #include <fcntl.h>
 
 i64_t fs_fopen(lit_p path, i64_t attrs);
+i64_t fs_freplace(lit_p path);
 i64_t fs_fdelete(lit_p path);
 i64_t fs_fsize(i64_t fd);
 i64_t fs_fread(i64_t fd, str_p buf, i64_t size);
diff --git a/core/io.c b/core/io.c
index e010c0a..6bfeeec 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1111,7 +1111,7 @@ obj_p ray_load(obj_p x) {
 
     // table expected
     if (x->len > 1 && AS_C8(x)[x->len - 1] == '/') {
-        tab = ray_get(x);
+        tab = io_get_table_splayed(x, NULL_OBJ);
         if (IS_ERR(tab))
             return tab;
 
@@ -1209,22 +1209,20 @@ obj_p io_set_table(obj_p path, obj_p table) {
         return io_set_table_splayed(path, table, NULL_OBJ);
 
     // Save as a blob (serialized)
+    buf = ser_obj(table);
+    if (IS_ERR(buf))
+        return buf;
+
     s = cstring_from_obj(path);
-    fd = fs_fopen(AS_C8(s), ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+    fd = fs_freplace(AS_C8(s));
 
     if (fd == -1) {
         res = err_os();
+        drop_obj(buf);
         drop_obj(s);
         return res;
     }
 
-    buf = ser_obj(table);
-    if (IS_ERR(buf)) {
-        drop_obj(s);
-        fs_fclose(fd);
-        return buf;
-    }
-
     c = fs_fwrite(fd, AS_C8(buf), buf->len);
     if (c == -1) {
         res = err_os();
@@ -1241,89 +1239,115 @@ obj_p io_set_table(obj_p path, obj_p table) {
     return NULL_OBJ;
 }
 
-obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
-    i64_t i, l;
-    obj_p res, col, s, p, v, e, cols, sym;
+// Stores symbols a table consists of into a symbol file, sets the "sym" variable
+static obj_p io_set_symfile(obj_p path, obj_p cols, obj_p symfile) {
+    obj_p s, v, sym, col, res;
 
-    // save columns schema
-    s = cstring_from_str(".d", 2);
-    col = ray_concat(path, s);
-    res = binary_set(col, AS_LIST(table)[0]);
+    sym = distinct_syms(AS_LIST(cols), cols->len);
 
-    drop_obj(s);
-    drop_obj(col);
+    switch (symfile->type) {
+        case TYPE_NULL:
+            s = cstring_from_str("sym", 3);
+            col = ray_concat(path, s);
+            res = binary_set(col, sym);
+            drop_obj(s);
+            drop_obj(col);
+            break;
+        case TYPE_C8:
+            // First we need to ckeck if symfile is already exist, if so - we need to merge
+            // it with sym and enumerate symbol columns over the whole new sym file, preserving ids of the old
+            // ones
+            s = ray_get(symfile);
+            if (s->type == TYPE_SYMBOL) {
+                // First retrieve distinct symbols from the new columns not present in current sym file
+                v = ray_except(sym, s);
+                drop_obj(sym);
+                sym = ray_concat(s, v);
+                drop_obj(v);
+            }
 
-    if (IS_ERR(res))
+            drop_obj(s);
+            res = binary_set(symfile, sym);
+            break;
+        default:
+            drop_obj(sym);
+            return err_type(TYPE_C8, symfile->type, 0, 0);
+    }
+
+    if (IS_ERR(res)) {
+        drop_obj(sym);
         return res;
+    }
 
     drop_obj(res);
 
+    s = symbol("sym", 3);
+    res = binary_set(s, sym);
+    drop_obj(s);
+    drop_obj(sym);
+
+    return res;
+}
+
+obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
+    i64_t i, l;
+    obj_p res, col, s, p, k, v, e, cols, syms;
+
     l = AS_LIST(table)[0]->len;
 
     cols = LIST(0);
+    syms = LIST(0);
 
     // find symbol columns
     for (i = 0; i < l; i++) {
-        if (AS_LIST(AS_LIST(table)[1])[i]->type == TYPE_SYMBOL)
-            push_obj(&cols, clone_obj(AS_LIST(AS_LIST(table)[1])[i]));
-    }
-
-    sym = distinct_syms(AS_LIST(cols), cols->len);
-
-    if (sym->len > 0) {
-        switch (symfile->type) {
-            case TYPE_NULL:
-                s = cstring_from_str("sym", 3);
-                col = ray_concat(path, s);
-                res = binary_set(col, sym);
-                drop_obj(s);
-                drop_obj(col);
-                break;
-            case TYPE_C8:
-                // First we need to ckeck if symfile is already exist, if so - we need to merge
-                // it with sym and enumerate symbol columns over the whole new sym file, preserving ids of the old
-                // ones
-                s = ray_get(symfile);
-                if (s->type == TYPE_SYMBOL) {
-                    // First retrieve distinct symbols from the new columns not present in current sym file
-                    v = ray_except(sym, s);
-                    drop_obj(sym);
-                    sym = ray_concat(s, v);
-                    drop_obj(v);
-                }
+        v = at_idx(AS_LIST(table)[1], i);
 
-                drop_obj(s);
-                res = binary_set(symfile, sym);
-                break;
-            default:
-                drop_obj(cols);
-                drop_obj(sym);
-                return err_type(TYPE_C8, symfile->type, 0, 0);
+        // the same as symbols already enumerated over another symbol file
+        if (v->type == TYPE_ENUM) {
+            k = ray_key(v);
+            e = (k->i64 == SYMBOL_SYM) ? ray_value(v) : NULL_OBJ;
+            drop_obj(k);
+
+            if (e->type == TYPE_SYMBOL) {
+                drop_obj(v);
+                v = e;
+            } else
+                drop_obj(e);
         }
 
-        if (IS_ERR(res))
-            return res;
-
-        drop_obj(res);
+        push_obj(&cols, v);
+        if (v->type == TYPE_SYMBOL)
+            push_obj(&syms, clone_obj(v));
+    }
 
-        s = symbol("sym", 3);
-        res = binary_set(s, sym);
+    // symbol file takes place of a column
+    for (i = 0; syms->len > 0 && symfile->type == TYPE_NULL && i < l; i++) {
+        if (AS_SYMBOL(AS_LIST(table)[0])[i] == SYMBOL_SYM) {
+            drop_obj(syms);
+            drop_obj(cols);
+            return err_domain(0, 0);
+        }
+    }
 
-        drop_obj(s);
+    // save columns schema
+    s = cstring_from_str(".d", 2);
+    col = ray_concat(path, s);
+    res = binary_set(col, AS_LIST(table)[0]);
 
-        if (IS_ERR(res))
-            return res;
+    drop_obj(s);
+    drop_obj(col);
 
+    if (!IS_ERR(res) && syms->len > 0) {
         drop_obj(res);
+        res = io_set_symfile(path, syms, symfile);
     }
 
-    drop_obj(cols);
-    drop_obj(sym);
-    // --
+    drop_obj(syms);
 
     // save columns data
-    for (i = 0; i < l; i++) {
-        v = at_idx(AS_LIST(table)[1], i);
+    for (i = 0; i < l && !IS_ERR(res); i++) {
+        drop_obj(res);
+        v = at_idx(cols, i);
 
         // symbol column need to be converted to enum
         if (v->type == TYPE_SYMBOL) {
@@ -1332,8 +1356,10 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
             drop_obj(s);
             drop_obj(v);
 
-            if (IS_ERR(e))
+            if (IS_ERR(e)) {
+                drop_obj(cols);
                 return e;
+            }
 
             v = e;
         }
@@ -1347,20 +1373,25 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
         drop_obj(v);
         drop_obj(s);
         drop_obj(col);
+    }
 
-        if (IS_ERR(res))
-            return res;
+    drop_obj(cols);
 
-        drop_obj(res);
-    }
+    if (IS_ERR(res))
+        return res;
+
+    drop_obj(res);
 
     return clone_obj(path);
 }
 
-obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
+// Reads columns of a splayed table
+obj_p io_get_columns_splayed(obj_p path) {
     obj_p col, keys, vals, val, s, v;
     i64_t i, l;
-    b8_t syms_present = B8_FALSE;
+
+    if (path->type != TYPE_C8)
+        return err_type(TYPE_C8, path->type, 0, 0);
 
     // first try to read columns schema
     s = cstring_from_str(".d", 2);
@@ -1391,6 +1422,12 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
         drop_obj(s);
         drop_obj(col);
 
+        // columns of a table have the same length
+        if (!IS_ERR(val) && i > 0 && ops_count(val) != ops_count(AS_LIST(vals)[0])) {
+            drop_obj(val);
+            val = err_length(0, 0, 0, 0, 0, 0);
+        }
+
         if (IS_ERR(val)) {
             vals->len = i;
             drop_obj(vals);
@@ -1400,15 +1437,31 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
         }
 
         AS_LIST(vals)[i] = val;
-
-        if (val->type == TYPE_ENUM)
-            syms_present = B8_TRUE;
     }
 
-    // read symbol data (if any) if sym is not present in current env
+    return table(keys, vals);
+}
+
+obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
+    obj_p tab;
+    i64_t i, l;
+
+    if (symfile->type != TYPE_NULL && symfile->type != TYPE_C8)
+        return err_type(TYPE_C8, symfile->type, 0, 0);
+
+    tab = io_get_columns_splayed(path);
+    if (IS_ERR(tab))
+        return tab;
+
+    // read symbol data (if any) the columns are enumerated over
     // symfile is optional - ignore error if it doesn't exist
-    if (syms_present && resolve(SYMBOL_SYM) == NULL)
-        drop_obj((symfile->type != TYPE_NULL) ? io_get_symfile(symfile) : io_get_symfile(path));
+    l = AS_LIST(tab)[1]->len;
+    for (i = 0; i < l; i++) {
+        if (AS_LIST(AS_LIST(tab)[1])[i]->type == TYPE_ENUM) {
+            drop_obj(io_get_symfile((symfile->type != TYPE_NULL) ? symfile : path));
+            break;
+        }
+    }
 
-    return table(keys, vals);
+    return tab;
 }
diff --git a/core/io.h b/core/io.h
index 703d854..7b4165b 100644
--- a/core/io.h
+++ b/core/io.h
@@ -39,6 +39,7 @@ obj_p io_write(i64_t fd, u8_t msg_type, obj_p obj);
 obj_p io_get_symfile(obj_p path);
 obj_p io_set_table(obj_p path, obj_p table);
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile);
+obj_p io_get_columns_splayed(obj_p path);
 obj_p io_get_table_splayed(obj_p path, obj_p symfile);
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t total_lines, i64_t *line_offsets, obj_p cols,
                   c8_t sep);
diff --git a/core/items.c b/core/items.c
index 4943320..7d79775 100644
--- a/core/items.c
+++ b/core/items.c
@@ -72,9 +72,8 @@ static inline obj_p at_vec_f64_by_i64(obj_p x, obj_p y) {
 }
 
 obj_p ray_at(obj_p x, obj_p y) {
-    i64_t i, j, yl, xl, n, size;
+    i64_t i, j, yl, xl, n;
     obj_p res, k, s, v, cols;
-    u8_t *buf;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_I64):
@@ -265,39 +264,28 @@ obj_p ray_at(obj_p x, obj_p y) {
             return res;
 
         case MTYPE2(TYPE_MAPLIST, -TYPE_I64):
-            k = MAPLIST_KEY(x);
-            v = MAPLIST_VAL(x);
+            if (y->i64 >= x->len || y->i64 < -x->len)
+                return err_index(y->i64, x->len, 0, 0);
 
-            xl = k->len;
-            yl = v->len;
-
-            if (y->i64 >= (i64_t)v->len)
-                return err_index(y->i64, v->len, 0, 0);
-
-            buf = AS_U8(k) + AS_I64(v)[y->i64];
-
-            return de_raw(buf, &xl);
+            return at_idx(x, y->i64);
 
         case MTYPE2(TYPE_MAPLIST, TYPE_I64):
-            k = MAPLIST_KEY(x);
-            v = MAPLIST_VAL(x);
-
-            size = k->len;
-
-            n = v->len;
             yl = y->len;
-
-            res = vector(TYPE_LIST, yl);
+            res = LIST(yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)n) {
+                if (AS_I64(y)[i] >= x->len || AS_I64(y)[i] < -x->len)
+                    v = err_index(AS_I64(y)[i], x->len, 0, 0);
+                else
+                    v = at_idx(x, AS_I64(y)[i]);
+
+                if (IS_ERR(v)) {
                     res->len = i;
                     drop_obj(res);
-                    return err_index(AS_I64(y)[i], n, 0, 0);
+                    return v;
                 }
 
-                buf = AS_U8(k) + AS_I64(v)[AS_I64(y)[i]];
-                AS_LIST(res)[i] = de_raw(buf, &size);
+                AS_LIST(res)[i] = v;
             }
 
             return res;
@@ -414,8 +402,23 @@ obj_p ray_filter(obj_p x, obj_p y) {
             __FILTER(x, y, LIST, , = clone_obj, );
 
         case MTYPE2(TYPE_ENUM, TYPE_B8):
-            res = ray_filter(ENUM_VAL(x), y);
-            return IS_ERR(res) ? res : enumerate(ray_key(x), res);
+            l = ENUM_VAL(x)->len;
+            if (l != y->len)
+                return err_length(l, y->len, 0, 0, 0, 0);
+            res = I64(l);
+            for (i = 0; i < l; i++)
+                if (AS_B8(y)[i])
+                    AS_I64(res)[j++] = AS_I64(ENUM_VAL(x))[i];
+            resize_obj(&res, j);
+            return enumerate(ray_key(x), res);
+
+        case MTYPE2(TYPE_MAPLIST, TYPE_B8):
+            vals = ray_value(x);
+            if (IS_ERR(vals))
+                return vals;
+            res = ray_filter(vals, y);
+            drop_obj(vals);
+            return res;
 
         case MTYPE2(TYPE_TABLE, TYPE_B8):
             vals = AS_LIST(x)[1];
@@ -441,9 +444,8 @@ obj_p ray_filter(obj_p x, obj_p y) {
 #define TAKE_LIMIT (1ll << 34)
 
 obj_p ray_take(obj_p from, obj_p count) {
-    i64_t i, j, f, l, m, n, size, start;
+    i64_t i, j, f, l, m, n, start;
     obj_p k, s, v, res;
-    u8_t *buf;
     int is_range = 0;
 
     // Check if count is a 2-element vector [start amount] for range take
@@ -730,10 +732,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                 return enumerate(k, res);
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(from);
-            s = MAPLIST_VAL(from);
-            n = k->len;
-            l = s->len;
+            l = from->len;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -747,43 +746,15 @@ obj_p ray_take(obj_p from, obj_p count) {
             res = vector(TYPE_LIST, m);
             if (IS_ERR(res))
                 return res;
-            size = n;
 
-            if (is_range) {
-                for (i = 0; i < m; i++) {
-                    j = start + i;
-                    if (AS_I64(s)[j] < (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
-                        res->len = i;
-                        drop_obj(res);
-                        return err_index(AS_I64(s)[j], n, 0, 0);
-                    }
-                }
-            } else {
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    if (AS_I64(s)[j % l] < (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j % l];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
-                        res->len = i;
-                        drop_obj(res);
-                        return err_index(AS_I64(s)[j % l], n, 0, 0);
-                    }
+            for (i = 0; i < m; i++) {
+                v = at_idx(from, is_range ? start + i : ((l - m % l) * f + i) % l);
+                if (IS_ERR(v)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return v;
                 }
+                AS_LIST(res)[i] = v;
             }
             return res;
 
@@ -1276,8 +1247,7 @@ obj_p ray_key(obj_p x) {
 
 obj_p ray_value(obj_p x) {
     obj_p sym, k, v, res, e, *objptr;
-    u8_t *u8ptr, *buf;
-    i64_t size;
+    u8_t *u8ptr;
     i64_t i, j, l, n, sl, xl, *i64ptr;
     i16_t *i16ptr;
     i32_t *i32ptr;
@@ -1321,33 +1291,19 @@ obj_p ray_value(obj_p x) {
             return res;
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(x);
-            e = MAPLIST_VAL(x);
-
-            xl = e->len;
-            sl = k->len;
-
-            size = sl;
-
-            res = vector(TYPE_LIST, xl);
+            xl = x->len;
+            res = LIST(xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl) {
-                    buf = AS_U8(k) + AS_I64(e)[i];
-                    v = de_raw(buf, &size);
+                v = at_idx(x, i);
 
-                    if (IS_ERR(v)) {
-                        res->len = i;
-                        drop_obj(res);
-                        return v;
-                    }
-
-                    AS_LIST(res)[i] = v;
-                } else {
+                if (IS_ERR(v)) {
                     res->len = i;
                     drop_obj(res);
-                    return err_index(AS_I64(e)[i], sl, 0, 0);
+                    return v;
                 }
+
+                AS_LIST(res)[i] = v;
             }
 
             return res;
@@ -1365,14 +1321,9 @@ obj_p ray_value(obj_p x) {
             // WARNING: here is assumed that inside parted list there are only map lists
             for (i = 0; i < l; i++) {
                 n = ops_count(AS_LIST(x)[i]);
-                k = MAPLIST_KEY(AS_LIST(x)[i]);
-                v = MAPLIST_VAL(AS_LIST(x)[i]);
-                size = k->len;
 
-                for (j = 0; j < n; j++) {
-                    buf = AS_U8(k) + AS_I64(v)[j];
-                    objptr[j] = de_raw(buf, &size);
-                }
+                for (j = 0; j < n; j++)
+                    objptr[j] = at_idx(AS_LIST(x)[i], j);
 
                 objptr += n;
             }
@@ -1470,6 +1421,10 @@ obj_p ray_value(obj_p x) {
             // TODO: optimise enums
             for (i = 0; i < l; i++) {
                 v = ray_value(AS_LIST(x)[i]);
+                if (IS_ERR(v)) {
+                    drop_obj(res);
+                    return v;
+                }
                 n = v->len;
                 memcpy(i64ptr, AS_I64(v), n * sizeof(i64_t));
                 drop_obj(v);
diff --git a/core/iter.c b/core/iter.c
index 677b85b..2ee7f07 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -30,6 +30,7 @@
 #include "error.h"
 #include "pool.h"
 #include "compose.h"
+#include "items.h"
 
 // Concatenate list of lists/vectors into single list/vector (flatten one level)
 static obj_p concat_parts(obj_p parts) {
@@ -276,6 +277,22 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     if (!x || !y)
         return err_type(TYPE_LIST, x ? y->type : 0, 0, 0);
 
+    // lazy lists are lists
+    if (x->type == TYPE_MAPLIST || y->type == TYPE_MAPLIST) {
+        a = (x->type == TYPE_MAPLIST) ? ray_value(x) : clone_obj(x);
+        if (IS_ERR(a))
+            return a;
+        b = (y->type == TYPE_MAPLIST) ? ray_value(y) : clone_obj(y);
+        if (IS_ERR(b)) {
+            drop_obj(a);
+            return b;
+        }
+        res = map_binary_fn(fn, attrs, a, b);
+        drop_obj(a);
+        drop_obj(b);
+        return res;
+    }
+
     xt = x->type;
     yt = y->type;
     if (((xt == TYPE_LIST || xt == TYPE_MAPLIST) && IS_VECTOR(y)) ||
@@ -702,7 +719,7 @@ obj_p ray_map_left(obj_p *x, i64_t n) {
             if (n != AS_LAMBDA(f)->args->len)
                 return err_arity(1, n, 0);
 
-            if (!IS_VECTOR(x[0])) {
+            if (!IS_VECTOR(x[0]) && x[0]->type != TYPE_MAPLIST) {
                 for (i = 0; i < n; i++)
                     vm_stack_push(clone_obj(x[i]));
 
@@ -789,7 +806,7 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
             if (n != AS_LAMBDA(f)->args->len)
                 return err_arity(1, n, 0);
 
-            if (!IS_VECTOR(x[n - 1])) {
+            if (!IS_VECTOR(x[n - 1]) && x[n - 1]->type != TYPE_MAPLIST) {
                 for (i = 0; i < n; i++)
                     vm_stack_push(clone_obj(x[i]));
 
diff --git a/core/logic.c b/core/logic.c
index 2c6b0c3..17b7f54 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -311,7 +311,6 @@ obj_p ray_like(obj_p x, obj_p y) {
             for (i = 0; i < l; i++) {
                 e = at_idx(x, i);
                 if (e == NULL_OBJ || e->type != TYPE_C8) {
-                    res->len = i;
                     drop_obj(res);
                     drop_obj(e);
                     return err_type(0, 0, 0, 0);
@@ -327,8 +326,13 @@ obj_p ray_like(obj_p x, obj_p y) {
             l = x->len;
             res = LIST(l);
             for (i = 0; i < l; i++) {
-                e = AS_LIST(x)[i];
-                AS_LIST(res)[i] = ray_like(e, y);
+                e = ray_like(AS_LIST(x)[i], y);
+                if (IS_ERR(e)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return e;
+                }
+                AS_LIST(res)[i] = e;
             }
 
             return res;
diff --git a/core/ops.c b/core/ops.c
index 3ee7acf..23e2fc9 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -246,9 +246,9 @@ i64_t ops_rank(obj_p *x, i64_t n) {
 
     for (i = 0; i < n; i++) {
         b = x + i;
-        if (IS_VECTOR(*b) && l == NULL_I64)
+        if ((IS_VECTOR(*b) || (*b)->type == TYPE_MAPLIST) && l == NULL_I64)
             l = ops_count(*b);
-        else if (IS_VECTOR(*b) && ops_count(*b) != l)
+        else if ((IS_VECTOR(*b) || (*b)->type == TYPE_MAPLIST) && ops_count(*b) != l)
             return NULL_I64;
     }
 
diff --git a/core/rayforce.c b/core/rayforce.c
index 2c16239..1e59bc5 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -904,11 +904,11 @@ obj_p at_idx(obj_p obj, i64_t idx) {
         case TYPE_MAPLIST:
             k = MAPLIST_KEY(obj);
             v = MAPLIST_VAL(obj);
-            size = k->len;
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)v->len) {
                 buf = AS_U8(k) + AS_I64(v)[idx];
+                size = k->len - AS_I64(v)[idx];
                 return de_raw(buf, &size);
             }
 
@@ -3008,7 +3008,7 @@ nil_t __attribute__((hot)) drop_obj(obj_p obj) {
             }
             return;
         case TYPE_MAPLIST:
-            runtime_fdmap_pop(runtime_get(), MAPLIST_KEY(obj));
+            drop_obj(MAPLIST_KEY(obj));
             runtime_fdmap_pop(runtime_get(), obj);
             // mmap_free(MAPLIST_KEY(obj), size_of(obj));
             // mmap_free((str_p)obj - RAY_PAGE_SIZE, size_of(obj) + RAY_PAGE_SIZE);
diff --git a/core/unary.c b/core/unary.c
index 744c363..62a0d19 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -45,9 +45,45 @@ obj_p unary_call(obj_p f, obj_p x) {
     return fn(x);
 }
 
+// Checks that what is mapped from a file of a given size is a value it is supposed to be, returns it or NULL
+static obj_p get_mapped(obj_p map, i64_t size) {
+    obj_p res = map;
+    i64_t hdr = ISIZEOF(struct obj_t), elt;
+
+    if (IS_EXTERNAL_SIMPLE(map)) {
+        if (res->type < TYPE_B8 || res->type > TYPE_C8 || res->type == TYPE_SYMBOL)
+            return NULL;
+        elt = size_of_type(res->type);
+    } else if (IS_EXTERNAL_COMPOUND(map)) {
+        hdr += RAY_PAGE_SIZE;
+        if (size < hdr)
+            return NULL;
+
+        res = (obj_p)((str_p)map + RAY_PAGE_SIZE);
+        if (res->type != TYPE_MAPLIST && res->type != TYPE_ENUM)
+            return NULL;
+
+        // name of a domain
+        if (res->type == TYPE_ENUM && memchr(AS_C8(map), 0, RAY_PAGE_SIZE - sizeof(struct obj_t)) == NULL)
+            return NULL;
+
+        elt = ISIZEOF(i64_t);
+    } else
+        return NULL;
+
+    if (res->len < 0 || res->len > (size - hdr) / elt)
+        return NULL;
+
+    res->mmod = map->mmod;
+    res->rc = 1;
+    res->attrs &= ATTR_DISTINCT | ATTR_ASC | ATTR_DESC;
+
+    return res;
+}
+
 obj_p ray_get(obj_p x) {
-    i64_t fd;
-    obj_p res, col, keys, s, v, *sym, path, fdmap;
+    i64_t i, fd;
+    obj_p map, res, col, keys, s, v, *sym, path, fdmap;
     i64_t sz, size;
 
     switch (x->type) {
@@ -62,55 +98,44 @@ obj_p ray_get(obj_p x) {
                 return err_type(0, 0, 0, 0);
 
             path = cstring_from_obj(x);
+#if defined(OS_WINDOWS)
             fd = fs_fopen(AS_C8(path), ATTR_RDWR);
+#else
+            fd = fs_fopen(AS_C8(path), ATTR_RDONLY);
+#endif
+            drop_obj(path);
 
-            if (fd == -1) {
-                res = err_os();
-                drop_obj(path);
-                return res;
-            }
+            if (fd == -1)
+                return err_os();
 
             size = fs_fsize(fd);
 
             if (size < ISIZEOF(struct obj_t)) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
                 fs_fclose(fd);
-                return res;
+                return err_type(0, 0, 0, 0);
             }
 
-            res = (obj_p)mmap_file(fd, NULL, size, 0);
+            map = (obj_p)mmap_file(fd, NULL, size, 0);
 
-            if (res == NULL) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
+            // mapping does not need the file to be open
+            fs_fclose(fd);
 
-            if (IS_EXTERNAL_SERIALIZED(res)) {
+            if (map == NULL)
+                return err_type(0, 0, 0, 0);
+
+            if (IS_EXTERNAL_SERIALIZED(map)) {
                 sz = size - ISIZEOF(struct obj_t);
-                v = de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
-                mmap_free(res, size);
-                fs_fclose(fd);
-                drop_obj(path);
+                v = de_raw((u8_t *)map + ISIZEOF(struct obj_t), &sz);
+                mmap_free(map, size);
                 return v;
-            } else if (IS_EXTERNAL_COMPOUND(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else if (IS_EXTERNAL_SIMPLE(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                return res;
             }
 
-            drop_obj(path);
+            res = get_mapped(map, size);
+
+            if (res == NULL) {
+                mmap_free(map, size);
+                return err_type(0, 0, 0, 0);
+            }
 
             // anymap needs additional nested mapping of dependencies
             if (res->type == TYPE_MAPLIST) {
@@ -120,15 +145,29 @@ obj_p ray_get(obj_p x) {
                 drop_obj(s);
                 drop_obj(col);
 
-                if (keys->type != TYPE_U8) {
+                if (IS_ERR(keys)) {
+                    mmap_free(map, size);
+                    return keys;
+                }
+
+                for (i = 0; keys->type == TYPE_U8 && i < res->len; i++)
+                    if (AS_I64(res)[i] < 0 || AS_I64(res)[i] >= keys->len)
+                        break;
+
+                if (keys->type != TYPE_U8 || i < res->len) {
                     drop_obj(keys);
-                    mmap_free(res, size);
+                    mmap_free(map, size);
                     return err_type(0, 0, 0, 0);
                 }
 
-                ((obj_p)((str_p)res - RAY_PAGE_SIZE))->obj = keys;
+                MAPLIST_KEY(res) = keys;
             }
-            return clone_obj(res);  // increment ref count
+
+            fdmap = fdmap_create();
+            fdmap_add_fd(&fdmap, map, -1, size);
+            runtime_fdmap_push(runtime_get(), res, fdmap);
+
+            return res;
 
         default:
             return err_type(0, 0, 0, 0);
diff --git a/core/vary.c b/core/vary.c
index 378a7f1..36fbaa5 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -188,7 +188,7 @@ obj_p ray_set_parted(obj_p *x, i64_t n) {
 obj_p ray_get_parted(obj_p *x, i64_t n) {
     i8_t type;
     i64_t i, j, l, wide;
-    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, eq, fmaps, virtcol, v, keys, vals, res;
+    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, fmaps, virtcol, v, keys, vals, res;
 
     switch (n) {
         case 2:
@@ -200,8 +200,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
 
             // Load symfile if present (needed before reading partitions with ENUM columns)
             // Ignore error if symfile doesn't exist - it's optional
-            if (resolve(SYMBOL_SYM) == NULL)
-                drop_obj(io_get_symfile(x[0]));
+            drop_obj(io_get_symfile(x[0]));
 
             // Read directories structure
             path = cstring_from_obj(x[0]);
@@ -259,7 +258,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
             path = str_fmt(-1, "%.*s%.*s/%s/", (i32_t)x[0]->len, AS_C8(x[0]), (i32_t)AS_LIST(res)[0]->len,
                            AS_C8(AS_LIST(res)[0]), str_from_symbol(x[1]->i64));
 
-            t1 = io_get_table_splayed(path, x[0]);
+            t1 = io_get_columns_splayed(path);
 
             if (IS_ERR(t1)) {
                 drop_obj(gcol);
@@ -294,7 +293,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 path = str_fmt(-1, "%.*s%.*s/%s/", (i32_t)x[0]->len, AS_C8(x[0]), (i32_t)AS_LIST(res)[i]->len,
                                AS_C8(AS_LIST(res)[i]), str_from_symbol(x[1]->i64));
 
-                t2 = io_get_table_splayed(path, x[0]);
+                t2 = io_get_columns_splayed(path);
 
                 if (IS_ERR(t2)) {
                     drop_obj(gcol);
@@ -317,9 +316,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 }
 
                 // Partitions must have the same column names
-                eq = ray_eq(AS_LIST(t1)[0], AS_LIST(t2)[0]);
-                if (!eq->b8) {
-                    drop_obj(eq);
+                if (cmp_obj(AS_LIST(t1)[0], AS_LIST(t2)[0]) != 0) {
                     drop_obj(gcol);
                     drop_obj(res);
                     drop_obj(t1);
@@ -329,8 +326,6 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                     return err_type(0, 0, 0, 0);
                 }
 
-                drop_obj(eq);
-
                 // Partitions must have the same column types
                 for (j = 0; j < wide; j++) {
                     if (AS_LIST(AS_LIST(t1)[1])[j]->type != AS_LIST(AS_LIST(t2)[1])[j]->type) {
-- 
2.43.0


From e5f94ea4fbf2cf227e7d3e0272f6072098de263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:21 +0000
Subject: [PATCH 68/98] fix: the allocator: memstat counts free and pool memory
 as it is, and moving a block of another heap to a smaller one copies no more
 than fits

---
 core/heap.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/heap.c b/core/heap.c
index 9d83c26..6d64c46 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -304,8 +304,6 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
             block->used = 1;
             block->heap_id = heap->id;
 
-            heap->memstat.system += size;
-
             return BLOCK2RAW(block);
         }
 
@@ -439,7 +437,8 @@ __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
             return NULL;
         }
 
-        memcpy(new_ptr, ptr, old_size - sizeof(struct obj_t));
+        // the new block may be the smaller one when the old one is of another heap or is file-backed
+        memcpy(new_ptr, ptr, (order > block->order ? old_size : BSIZEOF(order)) - sizeof(struct obj_t));
         heap_free(ptr);
 
         return new_ptr;
@@ -584,6 +583,12 @@ nil_t heap_merge(heap_p heap) {
 
     h->avail |= heap->avail;
     heap->avail = 0;
+
+    // The pools the other heap has added belong to this one now
+    h->memstat.system += heap->memstat.system;
+    h->memstat.heap += heap->memstat.heap;
+    heap->memstat.system = 0;
+    heap->memstat.heap = 0;
 }
 
 memstat_t heap_memstat(nil_t) {
@@ -597,7 +602,7 @@ memstat_t heap_memstat(nil_t) {
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
         block = h->freelist[i];
         while (block) {
-            h->memstat.free += BLOCKSIZE(i);
+            h->memstat.free += BSIZEOF(i);
             block = block->next;
         }
     }
-- 
2.43.0


From a046252296a7afad5fa312ffa8e84a007da31db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:34 +0000
Subject: [PATCH 69/98] fix: tables kept in files: null symbols are not written
 as garbage into the symbol file and read back as null, sum of narrow and last
 of any parted column, symbol columns of parts are freed

---
 core/aggr.c     | 22 +++++++++++++++-------
 core/compose.c  | 10 +++++++++-
 core/io.c       |  4 ++++
 core/rayforce.c |  9 +++++++--
 core/vary.c     |  2 +-
 5 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 561ae3c..9e1bdb6 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -1017,22 +1017,22 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
-                              if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, f64, f64,
-                              if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+                              if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, guid, guid,
-                              if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                              if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i32, i32,
-                              if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
-                              if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1068,7 +1068,7 @@ obj_p aggr_sum_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 }
 
 obj_p aggr_sum(obj_p val, obj_p index) {
-    i64_t n;
+    i64_t i, n;
     obj_p parts, res;
 
     n = index_group_count(index);
@@ -1115,7 +1115,15 @@ obj_p aggr_sum(obj_p val, obj_p index) {
         case TYPE_PARTEDI32:
             return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i32, i32, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]));
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i16, i16, $out[$y] = FOLD_ADDI16($out[$y], $in[$x]));
+            // Narrow integers are summed as I64
+            parts = LIST(val->len);
+            for (i = 0; i < val->len; i++)
+                AS_LIST(parts)[i] = cast_obj(TYPE_I64, AS_LIST(val)[i]);
+            parts->type = TYPE_PARTEDI64;
+            res = aggr_sum(parts, index);
+            parts->type = TYPE_LIST;
+            drop_obj(parts);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
diff --git a/core/compose.c b/core/compose.c
index 37bea79..1629f06 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -420,6 +420,7 @@ obj_p ray_enlist(obj_p *x, i64_t n) {
 }
 
 obj_p ray_enum(obj_p x, obj_p y) {
+    i64_t i;
     obj_p s, v;
 
     switch (MTYPE2(x->type, y->type)) {
@@ -434,7 +435,14 @@ obj_p ray_enum(obj_p x, obj_p y) {
                 return err_type(TYPE_SYMBOL, s ? s->type : 0, 0, 0);
             }
 
-            v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
+            if (s->len > 0)
+                v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
+            else {
+                // nothing is found in an empty domain
+                v = I64(y->len);
+                for (i = 0; i < y->len; i++)
+                    AS_I64(v)[i] = NULL_I64;
+            }
             drop_obj(s);
 
             if (IS_ERR(v)) {
diff --git a/core/io.c b/core/io.c
index 6bfeeec..fb6e70f 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1153,6 +1153,10 @@ obj_p distinct_syms(obj_p *x, i64_t n) {
     for (i = 0, h = 0; i < n; i++) {
         a = *(x + i);
         for (j = 0; j < l; j++) {
+            // null marks an empty slot, and is not a symbol to be stored
+            if (AS_SYMBOL(a)[j] == NULL_I64)
+                continue;
+
             p = ht_oa_tab_next(&set, AS_SYMBOL(a)[j]);
             if (AS_SYMBOL(AS_LIST(set)[0])[p] == NULL_I64) {
                 AS_SYMBOL(AS_LIST(set)[0])[p] = AS_SYMBOL(a)[j];
diff --git a/core/rayforce.c b/core/rayforce.c
index 1e59bc5..b784ca7 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1137,6 +1137,11 @@ static obj_p at_ids_partial(obj_p obj, i64_t ids[], i64_t len, i64_t offset, obj
     }
 }
 
+// Symbol an enumeration's index stands for, null if there is none
+static inline i64_t enum_sym(obj_p syms, i64_t i) {
+    return (i >= 0 && i < syms->len) ? AS_SYMBOL(syms)[i] : NULL_I64;
+}
+
 obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
     i64_t i, xl, chunk;
     i64_t mapid, m, n;
@@ -1216,7 +1221,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
 
             res = SYMBOL(len);
             for (i = 0; i < len; i++)
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(obj))[ids[i]]];
+                AS_I64(res)[i] = enum_sym(v, AS_I64(ENUM_VAL(obj))[ids[i]]);
 
             drop_obj(v);
 
@@ -1328,7 +1333,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
                     m = n;
                     n += AS_LIST(obj)[++mapid]->len;
                 }
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(AS_LIST(obj)[mapid]))[ids[i] - m]];
+                AS_I64(res)[i] = enum_sym(v, AS_I64(ENUM_VAL(AS_LIST(obj)[mapid]))[ids[i] - m]);
             }
 
             drop_obj(v);
diff --git a/core/vary.c b/core/vary.c
index 36fbaa5..1589e93 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -368,7 +368,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 AS_LIST(vals)[i + 1] = clone_obj(AS_LIST(fmaps)[i]);
 
                 type = AS_LIST(AS_LIST(t1)[1])[i]->type;
-                if ((type >= TYPE_B8 && type <= TYPE_GUID) || type == TYPE_ENUM)
+                if ((type >= TYPE_B8 && type <= TYPE_GUID && type != TYPE_SYMBOL) || type == TYPE_ENUM)
                     type += TYPE_PARTEDLIST;
                 else
                     type = TYPE_PARTEDLIST;
-- 
2.43.0


From 24c05b34454d0a0b32f13c877009c5869b6df01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:30 +0000
Subject: [PATCH 70/98] fix: the allocator: blocks coming out of the caches and
 from other heaps are joined with their buddies

---
 core/heap.c | 81 +++++++++++++++++++++++++----------------------------
 1 file changed, 38 insertions(+), 43 deletions(-)

diff --git a/core/heap.c b/core/heap.c
index 6d64c46..fb3ee56 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -223,6 +223,31 @@ inline __attribute__((always_inline)) nil_t heap_split_block(heap_p heap, block_
     }
 }
 
+// Insert free block into the freelist, merging it with its free buddies first
+static nil_t heap_coalesce_block(heap_p heap, block_p block, i64_t order) {
+    block_p buddy;
+
+    for (;; order++) {
+        // check if we are at the root block (no buddies left)
+        if (block->pool_order == order)
+            return heap_insert_block(heap, block, order);
+
+        // calculate buddy and prefetch its metadata
+        buddy = BUDDYOF(block, order);
+        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
+
+        // buddy is used, or buddy is of different order, or it is free in another heap, so we can't merge
+        if (buddy->used || buddy->order != order || buddy->heap_id != heap->id)
+            return heap_insert_block(heap, block, order);
+
+        // merge blocks: remove buddy from its freelist.
+        heap_remove_block(heap, buddy, order);
+
+        // check if buddy is lower address than block (means it is of higher order), if so, swap them
+        block = (buddy < block) ? buddy : block;
+    }
+}
+
 // Flush slab caches back to freelists for coalescing
 static nil_t heap_flush_slabs(heap_p heap) {
     i64_t i;
@@ -231,8 +256,8 @@ static nil_t heap_flush_slabs(heap_p heap) {
     for (i = 0; i < SLAB_ORDERS; i++) {
         while (heap->slabs[i].count > 0) {
             block = heap->slabs[i].stack[--heap->slabs[i].count];
-            // heap_insert_block will set used=0
-            heap_insert_block(heap, block, SLAB_ORDER_MIN + i);
+            // heap_coalesce_block will set used=0
+            heap_coalesce_block(heap, block, SLAB_ORDER_MIN + i);
         }
     }
 }
@@ -337,7 +362,7 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
 }
 
 __attribute__((hot)) nil_t heap_free(raw_p ptr) {
-    block_p block, buddy;
+    block_p block;
     i64_t fd, res;
     i64_t order;
     c8_t filename[64];
@@ -390,25 +415,7 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
         return;
     }
 
-    for (;; order++) {
-        // check if we are at the root block (no buddies left)
-        if (block->pool_order == order)
-            return heap_insert_block(heap, block, order);
-
-        // calculate buddy and prefetch its metadata
-        buddy = BUDDYOF(block, order);
-        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
-
-        // buddy is used, or buddy is of different order, or it is free in another heap, so we can't merge
-        if (buddy->used || buddy->order != order || buddy->heap_id != heap->id)
-            return heap_insert_block(heap, block, order);
-
-        // merge blocks: remove buddy from its freelist.
-        heap_remove_block(heap, buddy, order);
-
-        // check if buddy is lower address than block (means it is of higher order), if so, swap them
-        block = (buddy < block) ? buddy : block;
-    }
+    heap_coalesce_block(heap, block, order);
 }
 
 __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
@@ -533,7 +540,7 @@ nil_t heap_borrow(heap_p heap) {
 
 nil_t heap_merge(heap_p heap) {
     i64_t i;
-    block_p block, next, last;
+    block_p block, next;
     heap_p h = VM->heap;  // Cache heap pointer (destination heap)
 
     // Transfer slab caches back to main heap (if room), else flush to freelist
@@ -545,7 +552,7 @@ nil_t heap_merge(heap_p heap) {
         // Flush remaining to main heap's freelist
         while (heap->slabs[i].count > 0) {
             block = heap->slabs[i].stack[--heap->slabs[i].count];
-            heap_insert_block(h, block, SLAB_ORDER_MIN + i);
+            heap_coalesce_block(h, block, SLAB_ORDER_MIN + i);
         }
     }
 
@@ -559,29 +566,17 @@ nil_t heap_merge(heap_p heap) {
     }
     heap->foreign_blocks = NULL;
 
-    // Merge freelists: O(1) prepend by finding tail, linking to main head
+    // Merge freelists: the blocks which have been split between the heaps become whole again
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
-        if (heap->freelist[i] == NULL)
-            continue;
-
-        // Find tail of worker's freelist
-        last = heap->freelist[i];
-        last->heap_id = h->id;
-        while (last->next != NULL) {
-            last = last->next;
-            last->heap_id = h->id;
-        }
-
-        // Link: worker_tail -> main_head, main_head = worker_head
-        last->next = h->freelist[i];
-        if (h->freelist[i] != NULL)
-            h->freelist[i]->prev = last;
-
-        h->freelist[i] = heap->freelist[i];
+        block = heap->freelist[i];
         heap->freelist[i] = NULL;
+        while (block != NULL) {
+            next = block->next;
+            heap_coalesce_block(h, block, i);
+            block = next;
+        }
     }
 
-    h->avail |= heap->avail;
     heap->avail = 0;
 
     // The pools the other heap has added belong to this one now
-- 
2.43.0


From a1099656fc61d59cd9108ddc3ec8ad6eea4945cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:40 +0000
Subject: [PATCH 71/98] fix: select and update: an atom which is null as from
 or take is not kept

---
 core/query.c  | 7 +++++--
 core/update.c | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/query.c b/core/query.c
index cc26627..8c2796a 100644
--- a/core/query.c
+++ b/core/query.c
@@ -292,8 +292,10 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
 
     prm = at_sym(obj, "from", 4);
 
-    if (is_null(prm))
+    if (is_null(prm)) {
+        drop_obj(prm);
         return err_value(symbols_intern("from", 4));
+    }
 
     val = eval(prm);
     drop_obj(prm);
@@ -320,7 +322,8 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
             return val;
 
         ctx->take = val;
-    }
+    } else
+        drop_obj(prm);
 
     timeit_tick("fetch table");
 
diff --git a/core/update.c b/core/update.c
index 846e9b3..13e0e67 100644
--- a/core/update.c
+++ b/core/update.c
@@ -963,8 +963,10 @@ obj_p ray_update(obj_p obj) {
     // Retrive a table
     tabsym = at_sym(obj, "from", 4);
 
-    if (is_null(tabsym))
+    if (is_null(tabsym)) {
+        drop_obj(tabsym);
         return err_length(0, 0, 0, 0, 0, 0);
+    }
 
     tab = eval(tabsym);
     if (IS_ERR(tab)) {
-- 
2.43.0


From 051f150966ac8b916a29d96ad0bcdc3391e74084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:45 +0000
Subject: [PATCH 72/98] fix: a handle closed twice gave its number to two later
 connections

---
 core/freelist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/freelist.c b/core/freelist.c
index 17d7048..e5488d2 100644
--- a/core/freelist.c
+++ b/core/freelist.c
@@ -71,6 +71,10 @@ i64_t freelist_pop(freelist_p freelist, i64_t pos) {
     if (pos < 0 || pos >= freelist->data_pos)
         return NULL_I64;
 
+    // already free
+    if (freelist->data[pos] == NULL_I64)
+        return NULL_I64;
+
     if (freelist->free_pos == freelist->free_size) {
         freelist->free_size *= 2;
         freelist->free = (i64_t *)heap_realloc(freelist->free, freelist->free_size * sizeof(i64_t));
-- 
2.43.0


From a65a13d9dd8b62c921b074517196168cc24d9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:45 +0000
Subject: [PATCH 73/98] fix: journals could not be replayed (records were read
 past the end), values which can not be serialised made the writer write
 garbage

---
 core/io.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/core/io.c b/core/io.c
index fb6e70f..e1bebe9 100644
--- a/core/io.c
+++ b/core/io.c
@@ -275,16 +275,10 @@ obj_p ray_read(obj_p x) {
             if (map == NULL)
                 return err_os();
 
-            // Validate minimum file size for header
-            if (size < (i64_t)sizeof(struct ipc_header_t)) {
-                mmap_free(map, size);
-                return err_os();
-            }
-
             sz = size;
 
             while (sz > 0) {
-                cur = map + sz;
+                cur = map + (size - sz);
                 val = de_raw(cur, &sz);
 
                 if (IS_ERR(val)) {
@@ -388,11 +382,14 @@ obj_p ray_write(obj_p x, obj_p y) {
     switch (x->type) {
         case -TYPE_I32:
             size = size_obj(y);
+            if (size == 0)
+                return err_type(0, 0, 0, 0);
+
             buf = U8(size);
             size = ser_raw(AS_U8(buf), y);
-            fs_fwrite(x->i32, AS_C8(buf), size);
+            size = (fs_fwrite(x->i32, AS_C8(buf), size) == size) ? 0 : -1;
             drop_obj(buf);
-            return NULL_OBJ;
+            return (size == 0) ? NULL_OBJ : err_os();
         case -TYPE_I64:
             // send ipc msg
             if (x->i64 < 0)
-- 
2.43.0


From e38fe9a5b791b6404ab33b29ea6e1d372cc3ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 74/98] fix: connections closed by their handlers were used
 after free, closed connections kept their sockets, several pending messages
 were lost, malformed headers crashed the server, requests could take the
 responses of others

---
 core/epoll.c  | 106 +++++++++++++++++++++++++++++++++++---------------
 core/ipc.c    |  93 ++++++++++++++++++++++++++++++-------------
 core/ipc.h    |   3 ++
 core/kqueue.c |  11 ++++++
 core/poll.c   |  19 +++++++--
 core/poll.h   |   6 +++
 6 files changed, 176 insertions(+), 62 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 1a92a36..58890e6 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -25,6 +25,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <sys/eventfd.h>
+#include <sys/poll.h>
 #include <fcntl.h>
 #include "poll.h"
 #include "heap.h"
@@ -33,6 +34,12 @@
 
 __thread i32_t __EVENT_FD;  // eventfd to notify epoll loop of shutdown
 
+// Events refer to selectors by id and serial: a selector may be gone by the time its event is handled
+#define EVENT_FD_KEY 0ull
+#define SELECTOR_KEY(s) (((u64_t)(s)->serial << 32) | (u32_t)(s)->id)
+
+static __thread u32_t __SELECTOR_SERIAL = 0;
+
 #define INITIAL_RX_BUFFER_SIZE 16
 
 nil_t sigint_handler(i32_t signo) {
@@ -74,7 +81,7 @@ poll_p poll_create() {
 
     LOG_DEBUG("Adding eventfd to epoll");
     ev.events = EPOLLIN;
-    ev.data.fd = __EVENT_FD;
+    ev.data.u64 = EVENT_FD_KEY;
     if (epoll_ctl(fd, EPOLL_CTL_ADD, __EVENT_FD, &ev) == -1) {
         LOG_ERROR("Failed to add eventfd to epoll");
         perror("epoll_ctl: eventfd");
@@ -145,11 +152,14 @@ i64_t poll_register(poll_p poll, poll_registry_p registry) {
     selector->data = registry->data;
     selector->rx.buf = NULL;
     selector->tx.buf = NULL;
+    selector->serial = ++__SELECTOR_SERIAL;
+    selector->busy = 0;
+    selector->closed = B8_FALSE;
 
     LOG_DEBUG("Setting up epoll event");
 
     ev.events = selector->interest;
-    ev.data.ptr = selector;
+    ev.data.u64 = SELECTOR_KEY(selector);
 
     if (epoll_ctl(poll->fd, EPOLL_CTL_ADD, selector->fd, &ev) == -1) {
         LOG_ERROR("epoll_ctl: add failed for fd %lld, errno %d", selector->fd, errno);
@@ -186,6 +196,8 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
         selector->close_fn(poll, selector);
 
     epoll_ctl(poll->fd, EPOLL_CTL_DEL, selector->fd, NULL);
+    if (selector->type != SELECTOR_TYPE_STDIN)
+        close(selector->fd);
 
     if (selector->rx.buf != NULL) {
         heap_free(selector->rx.buf);
@@ -198,6 +210,12 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
         selector->tx.buf = buf;
     }
 
+    // an event handler is still using it
+    if (selector->busy > 0) {
+        selector->closed = B8_TRUE;
+        return 0;
+    }
+
     LOG_DEBUG("Freeing selector");
 
     heap_free(selector);
@@ -327,21 +345,27 @@ i64_t poll_run(poll_p poll) {
             ev = events[n];
 
             // shutdown
-            if (ev.data.fd == __EVENT_FD) {
+            if (ev.data.u64 == EVENT_FD_KEY) {
                 LOG_DEBUG("Shutdown event received");
                 poll->code = 0;
                 break;
             }
 
-            selector = (selector_p)ev.data.ptr;
+            // the selector has been deregistered by a handler of an earlier event
+            selector = poll_get_selector(poll, (i64_t)(u32_t)ev.data.u64);
+            if (selector == NULL || SELECTOR_KEY(selector) != ev.data.u64)
+                continue;
 
-            // error or hang up
-            if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
+            // error or hang up: what has been received before still has to be read
+            if (((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) &&
+                (!(ev.events & POLL_EVENT_READ) || selector->rx.recv_fn == NULL)) {
                 LOG_DEBUG("Connection error or hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
                 poll_deregister(poll, selector->id);
                 continue;
             }
 
+            poll_selector_hold(selector);
+
             // read
             if (ev.events & POLL_EVENT_READ) {
                 LOG_TRACE("Read event received for selector %lld, events: 0x%llx", selector->id, ev.events);
@@ -360,7 +384,7 @@ i64_t poll_run(poll_p poll) {
 
                         if (nbytes == 0) {
                             // No more data to read (EAGAIN/EWOULDBLOCK), wait for next edge trigger
-                            goto next_event;
+                            break;
                         }
                     }
 
@@ -373,11 +397,11 @@ i64_t poll_run(poll_p poll) {
                         if (poll_result.value != NULL && selector->data_fn != NULL)
                             poll_result = selector->data_fn(poll, selector, poll_result.value);
 
-                        if (option_is_some(&poll_result))
+                        if (option_is_some(&poll_result) && !selector->closed)
                             continue;
                     }
 
-                    if (option_is_error(&poll_result))
+                    if (option_is_error(&poll_result) && !selector->closed)
                         poll_deregister(poll, selector->id);
 
                     break;
@@ -385,7 +409,7 @@ i64_t poll_run(poll_p poll) {
             }
 
             // write
-            if (ev.events & POLL_EVENT_WRITE) {
+            if ((ev.events & POLL_EVENT_WRITE) && !selector->closed) {
                 LOG_TRACE("Write event received for selector %lld", selector->id);
                 nbytes = 0;
                 while (selector->tx.buf != NULL) {
@@ -401,43 +425,52 @@ i64_t poll_run(poll_p poll) {
                 }
             }
 
-        next_event:;
+        next_event:
+            poll_selector_release(selector);
         }
     }
 
     return poll->code;
 }
 
-option_t poll_block_on(poll_p poll, selector_p selector) {
+static i64_t wait_fd(struct pollfd *pfd) { return poll(pfd, 1, -1); }
+
+static option_t poll_block_loop(poll_p poll, selector_p selector) {
     option_t result;
-    fd_set readfds;
-    struct timeval timeout;
+    struct pollfd pfd;
     i64_t nbytes, ret;
 
     LOG_TRACE("Blocking on selector id: %lld, fd: %lld", selector->id, selector->fd);
 
     // Perform the read operation
-    while (selector->rx.buf != NULL) {
-        // Setup select (must be done each iteration as select modifies these)
-        FD_ZERO(&readfds);
-        FD_SET(selector->fd, &readfds);
-        timeout.tv_sec = 3;
-        timeout.tv_usec = 0;
-
-        // Wait for the file descriptor to become readable
-        ret = select(selector->fd + 1, &readfds, NULL, NULL, &timeout);
+    while (!selector->closed && selector->rx.buf != NULL) {
+        // Wait for the file descriptor to become readable, or writable if there is something left to be sent
+        pfd.fd = (i32_t)selector->fd;
+        pfd.events = POLLIN | (selector->tx.buf != NULL ? POLLOUT : 0);
+        pfd.revents = 0;
+
+        ret = wait_fd(&pfd);
         if (ret == -1) {
-            LOG_ERROR("select failed");
+            LOG_ERROR("poll failed");
+            // the response may come later, when it would be taken for the response to another request
+            poll_deregister(poll, selector->id);
             return option_error(err_os());
         }
 
-        LOG_TRACE("select returned %lld", ret);
+        LOG_TRACE("poll returned %lld", ret);
 
-        if (ret == 0)
+        if ((pfd.revents & POLLOUT) && selector->tx.buf != NULL && poll_send(poll, selector) == -1) {
+            poll_deregister(poll, selector->id);
             return option_error(err_os());
+        }
+
+        if (!(pfd.revents & ~POLLOUT))
+            continue;
+
+        result = option_none();
 
         // In case we have a low level IO recv function, use it
-        if (selector->rx.buf != NULL && selector->rx.recv_fn != NULL) {
+        if (selector->rx.recv_fn != NULL) {
             nbytes = poll_recv(poll, selector);
 
             if (nbytes == -1) {
@@ -446,14 +479,15 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
             }
 
             if (nbytes == 0)
-                return option_none();
+                continue;
         }
 
         if (selector->rx.read_fn != NULL)
             result = selector->rx.read_fn(poll, selector);
 
         if (option_is_error(&result)) {
-            poll_deregister(poll, selector->id);
+            if (!selector->closed)
+                poll_deregister(poll, selector->id);
             return result;
         }
 
@@ -463,5 +497,15 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
 
     LOG_DEBUG("empty buffer");
 
-    return option_none();
-}
\ No newline at end of file
+    return option_error(err_os());
+}
+
+option_t poll_block_on(poll_p poll, selector_p selector) {
+    option_t result;
+
+    poll_selector_hold(selector);
+    result = poll_block_loop(poll, selector);
+    poll_selector_release(selector);
+
+    return result;
+}
diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..77a5114 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -238,11 +238,10 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
     if (fd == -1)
         return -1;
 
-    if (sock_send(fd, buf, 2) == -1)
-        return -1;
-
-    if (sock_recv(fd, buf, 1) == -1)
+    if (sock_send(fd, buf, 2) == -1 || sock_recv(fd, buf, 1) == -1) {
+        sock_close(fd);
         return -1;
+    }
 
     LOG_TRACE("Setting socket to non-blocking mode");
     sock_set_nonblocking(fd, B8_TRUE);
@@ -250,10 +249,13 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
 
     ctx = (ipc_ctx_p)heap_alloc(sizeof(struct ipc_ctx_t));
     ctx->name = string_from_str("ipc", 4);
+    ctx->msgtype = MSG_TYPE_RESP;
 
     registry.fd = fd;
     registry.type = SELECTOR_TYPE_SOCKET;
-    registry.events = POLL_EVENT_READ | POLL_EVENT_ERROR | POLL_EVENT_HUP;
+    registry.events =
+        POLL_EVENT_READ | POLL_EVENT_WRITE | POLL_EVENT_ERROR | POLL_EVENT_HUP | POLL_EVENT_RDHUP | POLL_EVENT_EDGE;
+    registry.data_fn = ipc_on_data;
     registry.recv_fn = sock_recv;
     registry.send_fn = sock_send;
     registry.read_fn = ipc_read_header;
@@ -330,12 +332,19 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
     msgtype = header->msgtype;
     msgsize = header->size;
 
+    // not a message, there is no way to find the next one
+    if (header->prefix != SERDE_PREFIX || msgsize < 1 || msgsize > IPC_MAX_MSG_SIZE) {
+        LOG_ERROR("Malformed message header from connection %lld", selector->id);
+        return option_error(err_os());
+    }
+
     LOG_TRACE("Header read: {.prefix: 0x%08x, .version: %d, .flags: %d, .endian: %d, .msgtype: %d, .size: %lld}",
               header->prefix, header->version, header->flags, header->endian, header->msgtype, header->size);
 
     // request the buffer for the entire message (including the header)
     LOG_DEBUG("Requesting buffer for message of size %lld", ISIZEOF(struct ipc_header_t) + msgsize);
-    poll_rx_buf_extend(poll, selector, msgsize);
+    if (poll_rx_buf_extend(poll, selector, msgsize) == -1)
+        return option_error(err_os());
 
     LOG_DEBUG("Switching to message reading mode");
     selector->rx.read_fn = ipc_read_msg;
@@ -401,6 +410,13 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+
+    // there has to be some response to a message, if the value itself can not be sent
+    if (size == 0) {
+        msg = err_type(0, 0, 0, 0);
+        size = size_obj(msg);
+    }
+
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
 
     header = (ipc_header_t *)buf->data;
@@ -424,16 +440,25 @@ option_t ipc_on_data(poll_p poll, selector_p selector, raw_p data) {
 
     ipc_ctx_p ctx;
     obj_p v, res;
+    u8_t msgtype;
 
     ctx = (ipc_ctx_p)selector->data;
+    msgtype = ctx->msgtype;
     res = (obj_p)data;
 
+    // nobody waits for this response
+    if (msgtype == MSG_TYPE_RESP) {
+        drop_obj(res);
+        return option_some(NULL);
+    }
+
     poll_set_usr_fd(selector->id);
     v = ipc_process_msg(poll, selector, res);
     poll_set_usr_fd(0);
 
     // Send a response if the message is a synchronous request
-    if (ctx->msgtype == MSG_TYPE_SYNC)
+    // (the connection may have been closed and other messages received while it was processed)
+    if (msgtype == MSG_TYPE_SYNC && !selector->closed)
         ipc_send_msg(poll, selector, v, MSG_TYPE_RESP);
 
     drop_obj(v);
@@ -484,43 +509,55 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
     option_t result;
     obj_p res;
     ipc_ctx_p ctx;
+    u8_t reqtype;
 
     LOG_DEBUG("Starting synchronous IPC send for id %lld", id);
 
     selector = poll_get_selector(poll, id);
-    if (selector == NULL) {
+    if (selector == NULL || selector->close_fn != ipc_on_close) {
         LOG_ERROR("Invalid selector for fd %lld", id);
         return err_os();
     }
 
+    poll_selector_hold(selector);
+
     ctx = (ipc_ctx_p)selector->data;
     ipc_send_msg(poll, selector, msg, msgtype);
 
     res = NULL_OBJ;
 
     // wait for the response
-    if (msgtype == MSG_TYPE_SYNC) {
-        do {
-            LOG_DEBUG("Waiting for response from connection %lld", selector->id);
-            result = poll_block_on(poll, selector);
-            LOG_DEBUG("Response received from connection %lld RESULT: %s", selector->id,
-                      option_is_some(&result) ? "some" : "none");
-            if (option_is_some(&result) && result.value != NULL) {
-                res = option_take(&result);
-                // If the message is a response, break the loop
-                if (ctx->msgtype == MSG_TYPE_RESP)
-                    break;
-
-                // Process the request otherwise
-                res = ipc_process_msg(poll, selector, res);
-                drop_obj(res);
-            } else if (option_is_error(&result)) {
-                LOG_ERROR("Error occurred on connection %lld", selector->id);
-                return option_take(&result);
-            }
-        } while (option_is_none(&result));
+    while (msgtype == MSG_TYPE_SYNC) {
+        LOG_DEBUG("Waiting for response from connection %lld", selector->id);
+        result = selector->closed ? option_error(err_os()) : poll_block_on(poll, selector);
+        LOG_DEBUG("Response received from connection %lld RESULT: %s", selector->id,
+                  option_is_some(&result) ? "some" : "none");
+
+        if (!option_is_some(&result)) {
+            LOG_ERROR("Error occurred on connection %lld", selector->id);
+            res = option_is_error(&result) ? option_take(&result) : err_os();
+            break;
+        }
+
+        if (result.value == NULL)
+            continue;
+
+        res = option_take(&result);
+
+        // If the message is a response, break the loop
+        if (ctx->msgtype == MSG_TYPE_RESP)
+            break;
+
+        // Process the request otherwise: it may wait for its own response
+        reqtype = ctx->msgtype;
+        res = ipc_process_msg(poll, selector, res);
+        if (reqtype == MSG_TYPE_SYNC && !selector->closed)
+            ipc_send_msg(poll, selector, res, MSG_TYPE_RESP);
+        drop_obj(res);
     }
 
+    poll_selector_release(selector);
+
     return res;
 }
 
diff --git a/core/ipc.h b/core/ipc.h
index 04bca0f..8d41558 100644
--- a/core/ipc.h
+++ b/core/ipc.h
@@ -32,6 +32,9 @@
 #define MSG_TYPE_SYNC 1
 #define MSG_TYPE_RESP 2
 
+// no message is bigger than the biggest pool of the heap
+#define IPC_MAX_MSG_SIZE (1ll << 38)
+
 typedef struct ipc_ctx_t {
     u8_t msgtype;
     obj_p name;
diff --git a/core/kqueue.c b/core/kqueue.c
index bad04db..bfff660 100644
--- a/core/kqueue.c
+++ b/core/kqueue.c
@@ -138,6 +138,8 @@ i64_t poll_register(poll_p poll, poll_registry_p registry) {
     selector->data = registry->data;
     selector->rx.buf = NULL;
     selector->tx.buf = NULL;
+    selector->busy = 0;
+    selector->closed = B8_FALSE;
 
     // Set up events
     if (registry->events & POLL_EVENT_READ) {
@@ -193,6 +195,15 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     heap_free(selector->rx.buf);
     heap_free(selector->tx.buf);
+
+    // an event handler is still using it
+    if (selector->busy > 0) {
+        selector->rx.buf = NULL;
+        selector->tx.buf = NULL;
+        selector->closed = B8_TRUE;
+        return 0;
+    }
+
     heap_free(selector);
 
     return 0;
diff --git a/core/poll.c b/core/poll.c
index 0e5d6cf..c784a83 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -72,6 +72,14 @@ nil_t poll_buf_destroy(poll_buffer_p buf) { heap_free(buf); }
 // Buffer management functions - Unix platforms use poll_buffer_p, Windows uses different buffer model
 #if !defined(OS_WINDOWS)
 
+// A selector in use by an event handler stays valid (though closed) if the handler deregisters it
+nil_t poll_selector_hold(selector_p selector) { selector->busy++; }
+
+nil_t poll_selector_release(selector_p selector) {
+    if (--selector->busy == 0 && selector->closed)
+        heap_free(selector);
+}
+
 i64_t poll_rx_buf_request(poll_p poll, selector_p selector, i64_t size) {
     UNUSED(poll);
 
@@ -128,10 +136,15 @@ i64_t poll_rx_buf_reset(poll_p poll, selector_p selector) {
 }
 
 i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf) {
+    poll_buffer_p last;
+
     // Attach the buffer to the end of the list
-    if (selector->tx.buf != NULL)
-        selector->tx.buf->next = buf;
-    else
+    if (selector->tx.buf != NULL) {
+        last = selector->tx.buf;
+        while (last->next != NULL)
+            last = last->next;
+        last->next = buf;
+    } else
         selector->tx.buf = buf;
 
     return poll_send(poll, selector);
diff --git a/core/poll.h b/core/poll.h
index f553692..5aef60d 100644
--- a/core/poll.h
+++ b/core/poll.h
@@ -198,6 +198,10 @@ typedef struct selector_t {
     poll_data_fn data_fn;
     raw_p data;
 
+    u32_t serial;  // tells the selector from an earlier one with the same id
+    i64_t busy;    // number of event handlers which are working with the selector
+    b8_t closed;   // deregistered, but is being kept until the handlers are done
+
     struct {
         poll_buffer_p buf;     // pointer to the buffer
         poll_io_fn recv_fn;    // to be called when the selector is ready to read
@@ -247,6 +251,8 @@ nil_t poll_deregister(poll_p poll, i64_t id);
 poll_p poll_create();
 i64_t poll_register(poll_p poll, poll_registry_p registry);
 i64_t poll_deregister(poll_p poll, i64_t id);
+nil_t poll_selector_hold(selector_p selector);
+nil_t poll_selector_release(selector_p selector);
 #endif
 
 nil_t poll_destroy(poll_p poll);
-- 
2.43.0


From 0e269613d63547f9eb69ca6a1f6e41639b6cf475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:31 +0000
Subject: [PATCH 75/98] fix: the timeout of hopen (milliseconds) was taken for
 seconds and did not cover the handshake

---
 core/ipc.c  | 2 +-
 core/poll.c | 6 +++++-
 core/sock.c | 9 +++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 77a5114..f4946a7 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -238,7 +238,7 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
     if (fd == -1)
         return -1;
 
-    if (sock_send(fd, buf, 2) == -1 || sock_recv(fd, buf, 1) == -1) {
+    if (sock_send(fd, buf, 2) == -1 || sock_recv(fd, buf, 1) != 1) {
         sock_close(fd);
         return -1;
     }
diff --git a/core/poll.c b/core/poll.c
index c784a83..946380c 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -76,8 +76,12 @@ nil_t poll_buf_destroy(poll_buffer_p buf) { heap_free(buf); }
 nil_t poll_selector_hold(selector_p selector) { selector->busy++; }
 
 nil_t poll_selector_release(selector_p selector) {
-    if (--selector->busy == 0 && selector->closed)
+    if (--selector->busy == 0 && selector->closed) {
+        // the handler may have requested a buffer for the next message
+        if (selector->rx.buf != NULL)
+            heap_free(selector->rx.buf);
         heap_free(selector);
+    }
 }
 
 i64_t poll_rx_buf_request(poll_p poll, selector_p selector, i64_t size) {
diff --git a/core/sock.c b/core/sock.c
index b6bf056..1d09633 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -343,10 +343,11 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         if (fd == -1)
             continue;
 
-        // Set timeout
-        tm.tv_sec = timeout;  // Timeout in seconds
-        tm.tv_usec = 0;       // Timeout in microseconds
-        if (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0) {
+        // Set timeout (to connect and for the handshake)
+        tm.tv_sec = timeout / 1000;            // Timeout is in milliseconds
+        tm.tv_usec = (timeout % 1000) * 1000;  // Rest in microseconds
+        if (timeout > 0 && (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0 ||
+                            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tm, sizeof(tm)) < 0)) {
             close(fd);
             continue;
         }
-- 
2.43.0


From 58043e4c9022656ad4ebacce04c66828a7058c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:20 +0000
Subject: [PATCH 76/98] fix: the console ignores an unknown escape sequence
 instead of swallowing the keys after it

---
 app/term.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/app/term.c b/app/term.c
index c429e91..57f697f 100644
--- a/app/term.c
+++ b/app/term.c
@@ -1402,6 +1402,22 @@ obj_p term_handle_return(term_p term) {
     return res;
 }
 
+// True while more keys may follow: ESC, then a single key or [ and parameters up to a final one
+static b8_t term_escape_pending(term_p term) {
+    c8_t c = term->input[term->input_len - 1];
+
+    if (term->input_len >= (i32_t)sizeof(term->input))
+        return B8_FALSE;
+
+    if (term->input_len == 1)
+        return B8_TRUE;
+
+    if (term->input_len == 2)
+        return c == '[' || c == 'O';
+
+    return c >= 0x20 && c < 0x40;
+}
+
 obj_p term_handle_escape(term_p term) {
     i64_t l;
 
@@ -1515,6 +1531,10 @@ obj_p term_handle_escape(term_p term) {
         goto proceed;
     }
 
+    // An unknown sequence is ignored once it is complete
+    if (!term_escape_pending(term))
+        goto proceed;
+
     return NULL;
 
 proceed:
-- 
2.43.0


From 949bea2bfe7de99f5efe412f369466174c745b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:26 +0000
Subject: [PATCH 77/98] fix: recalling history keeps the line being typed when
 there is nothing to recall, and starts anew after each entry

---
 app/term.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/app/term.c b/app/term.c
index 57f697f..b989c39 100644
--- a/app/term.c
+++ b/app/term.c
@@ -349,6 +349,7 @@ nil_t hist_add(hist_p hist, c8_t buf[], i64_t len) {
 
     pos = hist->pos;
     hist->index = (pos > 0) ? pos - 1 : 0;
+    hist->search_dir = 1;
     size = hist->size;
     index = hist->index;
     last_len = 0;
@@ -366,6 +367,7 @@ nil_t hist_add(hist_p hist, c8_t buf[], i64_t len) {
     }
 
     if (index == 0) {
+        last_len = hist->index;
         // Check if the line is already in the history buffer
         if (last_len == len && strncmp(hist->entries, buf, len) == 0)
             return;
@@ -478,8 +480,9 @@ i64_t hist_restore_current(hist_p hist, c8_t buf[]) {
     i64_t l;
     l = hist->curr_len;
 
+    // Nothing was recalled: the line stays as it is
     if (hist->curr_saved == 0)
-        return l;
+        return -1;
 
     memcpy(buf, hist->curr, l);
     buf[l] = '\0';
@@ -490,6 +493,8 @@ i64_t hist_restore_current(hist_p hist, c8_t buf[]) {
 nil_t hist_reset_current(hist_p hist) {
     hist->curr_saved = 0;
     hist->curr_len = 0;
+    hist->index = (hist->pos > 0) ? hist->pos - 1 : 0;
+    hist->search_dir = 1;
 }
 
 // Get current line number (for error traces) - returns next line number
@@ -1441,8 +1446,10 @@ obj_p term_handle_escape(term_p term) {
             term->buf_pos = l;
         } else {
             l = hist_restore_current(term->hist, term->buf);
-            term->buf_len = l;
-            term->buf_pos = l;
+            if (l >= 0) {
+                term->buf_len = l;
+                term->buf_pos = l;
+            }
         }
         term_redraw(term);
         goto proceed;
@@ -1585,6 +1592,7 @@ obj_p term_read(term_p term) {
         case KEYCODE_RETURN:
             res = term_handle_return(term);
             autocp_reset_current(term);
+            hist_reset_current(term->hist);
             term->input_len = 0;
 
             // Reset input buffer regardless of result
-- 
2.43.0


From 7cbb19c1676c53725cefd5e1dbc9635965ca06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 78/98] fix: the console waits for more input only when
 brackets can still be closed: not after a wrong closing one, nor for comments
 and character literals

---
 app/term.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/app/term.c b/app/term.c
index b989c39..3efa5f0 100644
--- a/app/term.c
+++ b/app/term.c
@@ -1268,7 +1268,8 @@ b8_t term_autocomplete_paren(term_p term) {
 
 nil_t term_handle_tab(term_p term) { term_autocomplete_paren(term); }
 
-// Check if parentheses, brackets, and braces are balanced,
+// Check that nothing is left to be closed by further input: parentheses, brackets, and braces are balanced
+// (a wrong closing one can't be repaired by further input either and is left to the parser to report),
 // AND that all double-quoted strings are properly closed (no unclosed double-quoted strings).
 // Checks the buffer passed in (either term->buf or term->multiline_buf)
 b8_t term_check_balance(c8_t *buf, i32_t len) {
@@ -1305,8 +1306,21 @@ b8_t term_check_balance(c8_t *buf, i32_t len) {
 
         // Handle single-quote (symbol literal) - skip the next non-whitespace sequence
         if (c == KEYCODE_SQUOTE) {
-            // Single quotes in this language start symbol literals, not strings
-            // They don't need balancing, just skip them
+            // Single quotes in this language start symbol or character literals, not strings
+            // They don't need balancing, just skip them (and the character of a literal, which may be a bracket or a quote)
+            if (i + 3 < len && buf[i + 1] == '\\' && buf[i + 3] == KEYCODE_SQUOTE)
+                i += 3;
+            else if (i + 2 < len && buf[i + 2] == KEYCODE_SQUOTE && buf[i + 1] != '\\' && buf[i + 1] != KEYCODE_RPAREN &&
+                     buf[i + 1] != KEYCODE_RBRACKET && buf[i + 1] != KEYCODE_RCURLY && buf[i + 1] != ':' &&
+                     !is_whitespace(buf[i + 1]))
+                i += 2;
+            continue;
+        }
+
+        // Skip comments
+        if (c == ';') {
+            while (i + 1 < len && buf[i + 1] != '\n')
+                i++;
             continue;
         }
 
@@ -1319,11 +1333,11 @@ b8_t term_check_balance(c8_t *buf, i32_t len) {
         // Track closing brackets/parens/braces
         else if (c == KEYCODE_RPAREN || c == KEYCODE_RBRACKET || c == KEYCODE_RCURLY) {
             if (depth == 0)
-                return B8_FALSE;  // More closing than opening
+                return B8_TRUE;  // More closing than opening
 
             c8_t expected = opposite_paren(stack[depth - 1]);
             if (c != expected)
-                return B8_FALSE;  // Mismatched brackets
+                return B8_TRUE;  // Mismatched brackets
 
             depth--;
         }
-- 
2.43.0


From 957c399c7685f798a8ae46ddc69e46609019b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:58 +0000
Subject: [PATCH 79/98] fix: completion in the console keeps within the line
 buffer

---
 app/term.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/app/term.c b/app/term.c
index 3efa5f0..5b849ac 100644
--- a/app/term.c
+++ b/app/term.c
@@ -996,7 +996,7 @@ c8_t opposite_paren(c8_t c) {
 
 paren_t term_find_open_paren(term_p term) {
     i32_t i, p, squote, dquote;
-    paren_t parens[TERM_BUF_SIZE];
+    paren_t parens[2 * TERM_BUF_SIZE];  // multiline buffer and current line
     c8_t c, prev;
 
     p = 0;
@@ -1156,6 +1156,9 @@ b8_t term_autocomplete_word(term_p term) {
     // Note: word is not being freed here bacause it is a global string like entry or symbol
 redraw:
     l = strlen(word);
+    if (start + l + len - end >= TERM_BUF_SIZE)
+        return B8_FALSE;
+
     memcpy(tbuf + start, word, l);
     memcpy(tbuf + start + l, hbuf + end, len - end);
     tbuf[start + l + len - end] = '\0';
@@ -1206,6 +1209,11 @@ b8_t term_autocomplete_path(term_p term, i64_t start) {
     prefix[prefix_len] = '\0';
 
     files = fs_read_dir(path);
+    if (files == NULL_OBJ || IS_ERR(files)) {
+        drop_obj(files);
+        return B8_FALSE;
+    }
+
     l = files->len;
 
     for (i = term->autocp_idx.index; i < l; i++) {
@@ -1214,7 +1222,7 @@ b8_t term_autocomplete_path(term_p term, i64_t start) {
 
         if (m > 0 && prefix_len <= m && strncmp(prefix, file, prefix_len) == 0) {
             // if the word is the same as the current one, then skip it
-            if (prefix_len == m)
+            if (prefix_len == m || start + path_len + m + len - end >= TERM_BUF_SIZE)
                 continue;
 
             strncpy(tbuf + start, path, path_len);
@@ -1250,6 +1258,9 @@ b8_t term_autocomplete_paren(term_p term) {
         return B8_TRUE;
     }
 
+    if (term->buf_len + 1 >= TERM_BUF_SIZE)
+        return B8_FALSE;
+
     // Highlight the open paren position (only if on current line)
     if (open_paren.pos >= 0)
         term_highlight_pos(term, open_paren.pos);
-- 
2.43.0


From 9b69b37a973ff45a86584e37d794d558086d5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:53 +0000
Subject: [PATCH 80/98] fix: piped input is evaluated as a whole, not in pieces
 of 4095 bytes

---
 app/repl.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/app/repl.c b/app/repl.c
index 5107e6d..9fdde59 100644
--- a/app/repl.c
+++ b/app/repl.c
@@ -143,17 +143,27 @@ repl_p repl_create(poll_p poll) {
             return NULL;
         }
     } else {
-        // Piped input - read and eval synchronously, then exit (oneshot mode, like Python)
-        c8_t buf[TERM_BUF_SIZE];
-        i64_t len;
-        obj_p str, res, fmt;
+        // Piped input - read all of it and eval synchronously, then exit (oneshot mode, like Python)
+        i64_t len, total, size;
+        obj_p buf, str, res, fmt;
         b8_t has_error = B8_FALSE;
 
         repl->term = NULL;
 
-        while ((len = read(STDIN_FILENO, buf, TERM_BUF_SIZE - 1)) > 0) {
-            buf[len] = '\0';
-            str = string_from_str(buf, len);
+        total = 0;
+        size = TERM_BUF_SIZE;
+        buf = C8(size);
+
+        while ((len = read(STDIN_FILENO, AS_C8(buf) + total, size - total)) > 0) {
+            total += len;
+            if (total == size) {
+                size *= 2;
+                resize_obj(&buf, size);
+            }
+        }
+
+        if (total > 0) {
+            str = string_from_str(AS_C8(buf), total);
             res = ray_eval_str_line(str, repl->name, 0);
             drop_obj(str);
 
@@ -166,6 +176,8 @@ repl_p repl_create(poll_p poll) {
             drop_obj(res);
         }
 
+        drop_obj(buf);
+
         // Print timing info and signal to exit
         timeit_print();
         poll->code = has_error ? 1 : 0;
-- 
2.43.0


From 6509dc6f3a955a8e92282c478ca101e925f96854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:12 +0000
Subject: [PATCH 81/98] fix: parallel grouping and searching split into no more
 chunks than there are: none beyond the end of the data

---
 core/index.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/index.c b/core/index.c
index 1808970..4cfb225 100644
--- a/core/index.c
+++ b/core/index.c
@@ -284,6 +284,16 @@ obj_p __hash_cols_partial(i64_t len, i64_t offset, __hash_cols_ctx_t *ctx) {
     return NULL_OBJ;
 }
 
+// Page-aligned chunk size; the last chunks may have nothing left to do, so their count becomes the one needed
+static i64_t index_chunks(i64_t len, i64_t *chunks, i64_t elem_size) {
+    i64_t chunk = pool_chunk_aligned(len, *chunks, elem_size);
+
+    if (*chunks > 1)
+        *chunks = (len + chunk - 1) / chunk;
+
+    return chunk;
+}
+
 nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrows, i64_t filter[], b8_t resolve) {
     i64_t i, j, chunks, base_chunk;
     pool_p pool;
@@ -291,7 +301,7 @@ nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrow
 
     pool = pool_get();
     chunks = pool_split_by(pool, nrows, 0);
-    base_chunk = pool_chunk_aligned(nrows, chunks, sizeof(i64_t));
+    base_chunk = index_chunks(nrows, &chunks, sizeof(i64_t));
 
     // Initialize hashes
     for (i = 0; i < nrows; i++)
@@ -363,7 +373,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
         return (index_scope_t){NULL_I64, NULL_I64, 0};
 
     chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i32_t));
+    base_chunk = index_chunks(len, &chunks, sizeof(i32_t));
 
     if (chunks == 1)
         index_scope_partial_i32(len, values, indices, 0, &min, &max);
@@ -430,7 +440,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
         return (index_scope_t){NULL_I64, NULL_I64, 0};
 
     chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    base_chunk = index_chunks(len, &chunks, sizeof(i64_t));
 
     if (chunks == 1)
         index_scope_partial_i64(len, values, indices, 0, &min, &max);
@@ -2000,7 +2010,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
             for (i = 0; i < scope.range; i++)
                 hk[i] = NULL_I64;
         } else {
-            base_chunk = pool_chunk_aligned(scope.range, chunks, sizeof(i64_t));
+            base_chunk = index_chunks(scope.range, &chunks, sizeof(i64_t));
             pool_prepare(pool);
             for (i = 0; i < chunks - 1; i++)
                 pool_add_task(pool, (raw_p)fill_null_i64, 3, hk, base_chunk, i * base_chunk);
@@ -2051,7 +2061,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
         hv = AS_I64(vals);
         pool = pool_get();
         chunks = pool_split_by(pool, len, 0);
-        base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+        base_chunk = index_chunks(len, &chunks, sizeof(i64_t));
         if (chunks == 1)
             index_group_i64_scoped_partial(values, indices, hk, len, 0, scope.min, hv);
         else {
@@ -2418,7 +2428,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     pool = pool_get();
     chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    base_chunk = index_chunks(len, &chunks, sizeof(i64_t));
 
     if (chunks == 1) {
         index_group_list_perfect_partial(len, 0, &ctx);
-- 
2.43.0


From 22e0036a166d107ee7af347e15e50d4933017a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:36 +0000
Subject: [PATCH 82/98] fix: like goes back to the last star also when the
 pattern is over before the text

---
 core/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/string.c b/core/string.c
index cace03a..30987cb 100644
--- a/core/string.c
+++ b/core/string.c
@@ -504,8 +504,14 @@ b8_t str_match(str_p str, i64_t str_len, str_p pat, i64_t pat_len) {
     i64_t last_star_str_pos = 0;         // Track corresponding string position
 
     while (str_pos < str_len) {
-        if (pat_pos >= pat_len)
-            return B8_FALSE;
+        if (pat_pos >= pat_len) {
+            // Pattern is over before the string - backtrack to last '*' if possible
+            if (last_star_pat_pos == NULL_I64)
+                return B8_FALSE;
+            pat_pos = last_star_pat_pos + 1;
+            str_pos = ++last_star_str_pos;
+            continue;
+        }
 
         switch (pat[pat_pos]) {
             case '*':
-- 
2.43.0


From 2536a2332597607f6cca18e69be93a9d8c515bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:36 +0000
Subject: [PATCH 83/98] fix: splitting at I16 or I32 positions keeps the length
 of vectors which are longer than the type can count

---
 core/compose.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 1629f06..1066649 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1299,8 +1299,7 @@ obj_p ray_row(obj_p x) {
 
 #define CUT_VECTOR(x, xt, y, yt)                                                                       \
     ({                                                                                                 \
-        i64_t $i, $j, $xl, $yl;                                                                        \
-        yt##_t $id, $last_id;                                                                          \
+        i64_t $i, $j, $xl, $yl, $id, $last_id;                                                         \
         obj_p $v, $res;                                                                                \
         $xl = x->len;                                                                                  \
         $yl = y->len;                                                                                  \
-- 
2.43.0


From aa6ec51576d62c8ed1ce7d1cc247ea24d33fb824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:08 +0000
Subject: [PATCH 84/98] fix: and and or over parted booleans leave their
 operands as they are

---
 core/logic.c | 93 ++++++++++++++++++++++++++--------------------------
 1 file changed, 47 insertions(+), 46 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 17b7f54..d22a9a1 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -100,6 +100,47 @@ static obj_p own_obj(obj_p x) {
     return res;
 }
 
+// Combines the parts of two parted booleans, which stay as they are: they can be columns of a table.
+// A part is NULL_OBJ (no match), b8(TRUE) (all match), or a B8 vector
+static obj_p logic_part(obj_p a, obj_p b, logic_op_f op_func) {
+    obj_p res;
+
+    // and(NULL,x)=NULL, or(NULL,x)=x
+    if (a == NULL_OBJ || b == NULL_OBJ) {
+        if (op_func == and_op_partial)
+            return NULL_OBJ;
+
+        return clone_obj((a == NULL_OBJ) ? b : a);
+    }
+
+    if (a->type == -TYPE_B8 && b->type == -TYPE_B8) {
+        res = b8(a->b8);
+        op_func(&res->b8, &b->b8, (raw_p)1, (raw_p)0, (raw_p)1);
+        if (!res->b8) {
+            drop_obj(res);
+            return NULL_OBJ;
+        }
+
+        return res;
+    }
+
+    // The accumulator is a vector
+    if (a->type == -TYPE_B8) {
+        res = a;
+        a = b;
+        b = res;
+    }
+
+    res = copy_obj(a);
+    res->attrs = 0;
+    if (b->type == -TYPE_B8)
+        op_func(AS_B8(res), &b->b8, (raw_p)res->len, (raw_p)0, (raw_p)0);
+    else
+        op_func(AS_B8(res), AS_B8(b), (raw_p)res->len, (raw_p)0, (raw_p)1);
+
+    return res;
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -218,53 +259,13 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                     return err_type(0, 0, 0, 0);
                 }
 
-                for (j = 0; j < l; j++) {
-                    obj_p a = AS_LIST(res)[j];
-                    obj_p b = AS_LIST(next)[j];
-
-                    // NULL_OBJ handling: and(NULL,x)=NULL, or(NULL,x)=x
-                    if (a == NULL_OBJ) {
-                        if (op_func == or_op_partial && b != NULL_OBJ) {
-                            AS_LIST(res)[j] = b;
-                            AS_LIST(next)[j] = NULL_OBJ;
-                        }
-                        continue;
-                    }
-                    if (b == NULL_OBJ) {
-                        if (op_func == and_op_partial) {
-                            drop_obj(a);
-                            AS_LIST(res)[j] = NULL_OBJ;
-                        }
-                        continue;
-                    }
-
-                    // Both b8(TRUE): and=TRUE, or=TRUE
-                    if (a->type == -TYPE_B8 && b->type == -TYPE_B8) {
-                        op_func(&a->b8, &b->b8, (raw_p)1, (raw_p)0, (raw_p)1);
-                        if (!a->b8) {
-                            drop_obj(a);
-                            AS_LIST(res)[j] = NULL_OBJ;
-                        }
-                        continue;
-                    }
-
-                    // b8(TRUE) with B8 vector: result is vector
-                    if (a->type == -TYPE_B8) {
-                        op_func(AS_B8(b), &a->b8, (raw_p)b->len, (raw_p)0, (raw_p)0);
-                        drop_obj(a);
-                        AS_LIST(res)[j] = b;
-                        AS_LIST(next)[j] = NULL_OBJ;
-                        continue;
-                    }
-                    if (b->type == -TYPE_B8) {
-                        op_func(AS_B8(a), &b->b8, (raw_p)a->len, (raw_p)0, (raw_p)0);
-                        continue;
-                    }
-
-                    // Both B8 vectors: element-wise
-                    op_func(AS_B8(a), AS_B8(b), (raw_p)a->len, (raw_p)0, (raw_p)1);
-                }
+                v = LIST(l);
+                v->type = TYPE_PARTEDB8;
+                for (j = 0; j < l; j++)
+                    AS_LIST(v)[j] = logic_part(AS_LIST(res)[j], AS_LIST(next)[j], op_func);
 
+                drop_obj(res);
+                res = v;
                 drop_obj(next);
                 break;
 
-- 
2.43.0


From 5fd6ddc6bb8f2d3e8e189599c056048586f077c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:19 +0000
Subject: [PATCH 85/98] fix: a row of a parted table has its bytes as bytes

---
 core/rayforce.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index b784ca7..69c447a 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -957,11 +957,14 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             for (i = 0, n = 0; i < l; i++) {
                 m = AS_LIST(obj)[i]->len;
                 n += m;
-                if (idx < n)
-                    return b8(AS_U8(AS_LIST(obj)[i])[m - (n - idx)]);
+                if (idx < n) {
+                    res = atom(obj->type - TYPE_PARTEDLIST);
+                    res->u8 = AS_U8(AS_LIST(obj)[i])[m - (n - idx)];
+                    return res;
+                }
             }
 
-            return b8(B8_FALSE);
+            return null(obj->type - TYPE_PARTEDLIST);
 
         case TYPE_PARTEDI16:
             l = obj->len;
-- 
2.43.0


From 70ab0dc6f3248e6ce4f5bbce042b9c07c2b0e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:43 +0000
Subject: [PATCH 86/98] fix: an aggregate of parted columns is a number also
 when no row is selected

---
 core/aggr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/aggr.c b/core/aggr.c
index 9e1bdb6..a7dc1e6 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -258,6 +258,16 @@ static b8_t window_rows(obj_p index, i64_t i, i64_t *from, i64_t *to) {
                 }                                                                                                    \
                 drop_obj($$v);                                                                                       \
             }                                                                                                        \
+            if (groups == 1 && $$first) {                                                                            \
+                /* No rows at all */                                                                                 \
+                $$pdata = vector(AS_LIST(val)[0]->type, 0);                                                          \
+                $$parts = aggr_map(preaggr, $$pdata, $$pdata->type, $$pindex);                                       \
+                drop_obj($$pdata);                                                                                   \
+                $$v = AGGR_COLLECT($$parts, 1, incoerse, outcoerse, postaggr);                                       \
+                drop_obj($$parts);                                                                                   \
+                memcpy(__AS_##outcoerse($$res), __AS_##incoerse($$v), __SIZE_OF_##outcoerse);                        \
+                drop_obj($$v);                                                                                       \
+            }                                                                                                        \
             drop_obj($$pindex);                                                                                      \
         } else {                                                                                                     \
             /* No filter or simple filter - one result per partition */                                              \
-- 
2.43.0


From 4f3931255b00494d2d0b6d8cd625f571ea50dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:54 +0000
Subject: [PATCH 87/98] fix: sum, avg and dev of parted timestamps are type
 errors, as of timestamps

---
 core/aggr.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index a7dc1e6..523a624 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -1116,7 +1116,6 @@ obj_p aggr_sum(obj_p val, obj_p index) {
             drop_obj(parts);
             return res;
         case TYPE_PARTEDI64:
-        case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, f64, f64, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]));
@@ -2048,8 +2047,7 @@ obj_p aggr_avg(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDF64:
         case TYPE_PARTEDDATE:
-        case TYPE_PARTEDTIME:
-        case TYPE_PARTEDTIMESTAMP: {
+        case TYPE_PARTEDTIME: {
             obj_p filter, pparts, ppart;
             f64_t total_sum;
             i64_t total_cnt;
@@ -2890,8 +2888,7 @@ obj_p aggr_dev(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDF64:
         case TYPE_PARTEDDATE:
-        case TYPE_PARTEDTIME:
-        case TYPE_PARTEDTIMESTAMP: {
+        case TYPE_PARTEDTIME: {
             obj_p filter, pparts, ppart;
             f64_t total_sum, total_sumsq;
             i64_t total_cnt;
-- 
2.43.0


From 35ffcc31af8af4c97edd17c9efe8b4a4b2c6a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:05 +0000
Subject: [PATCH 88/98] fix: aggregates, rows and values of parted columns are
 of the rows which the filter selects

---
 core/aggr.c    | 385 +++++++++++++++++++++++--------------------------
 core/compose.c |  24 +--
 2 files changed, 184 insertions(+), 225 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 523a624..93db04e 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -28,6 +28,7 @@
 #include "error.h"
 #include "rayforce.h"
 #include "util.h"
+#include "compose.h"
 #include "items.h"
 #include "unary.h"
 #include "string.h"
@@ -175,6 +176,47 @@ static b8_t window_rows(obj_p index, i64_t i, i64_t *from, i64_t *to) {
         }                                                                                              \
     })
 
+// Whether the filter of a parted column selects rows of its i-th part: there is no entry (or an empty one)
+// for a part without such rows, and -1 for a part all of whose rows are selected
+static b8_t parted_selected(obj_p filter, i64_t i) {
+    obj_p ids = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
+
+    return filter == NULL_OBJ || (ids != NULL_OBJ && (ids->type == -TYPE_I64 || ids->len > 0));
+}
+
+// Rows selected by the filter in the i-th part, NULL_OBJ for all of them
+static obj_p parted_ids(obj_p filter, i64_t i) {
+    obj_p ids = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
+
+    return (ids == NULL_OBJ || ids->type == -TYPE_I64) ? NULL_OBJ : ids;
+}
+
+static i64_t parted_first_row(obj_p filter, i64_t i) {
+    obj_p ids = parted_ids(filter, i);
+
+    return (ids == NULL_OBJ) ? 0 : AS_I64(ids)[0];
+}
+
+static i64_t parted_last_row(obj_p val, obj_p filter, i64_t i) {
+    obj_p ids = parted_ids(filter, i);
+
+    return (ids == NULL_OBJ) ? ops_count(AS_LIST(val)[i]) - 1 : AS_I64(ids)[ids->len - 1];
+}
+
+// Values of the i-th part in the rows selected by the filter
+static obj_p parted_values(obj_p val, obj_p filter, i64_t i) {
+    obj_p v, res, ids = parted_ids(filter, i);
+
+    v = ray_value(AS_LIST(val)[i]);
+    if (ids == NULL_OBJ || IS_ERR(v))
+        return v;
+
+    res = at_ids(v, AS_I64(ids), ids->len);
+    drop_obj(v);
+
+    return res;
+}
+
 #define AGGR_COLLECT(parts, groups, incoerse, outcoerse, aggr) \
     ({                                                         \
         i64_t $x, $y, $i, $j, $l;                              \
@@ -570,8 +612,8 @@ obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
 
 obj_p aggr_first(obj_p val, obj_p index) {
     i64_t i, j, n, l;
-    i64_t *xo, *xe, *first_ids, *filter_ids;
-    obj_p parts, pos, res, ek, filter, sym;
+    i64_t *first_ids, *filter_ids;
+    obj_p parts, pos, res, ek, filter;
 
     n = index_group_count(index);
 
@@ -701,91 +743,37 @@ obj_p aggr_first(obj_p val, obj_p index) {
         case TYPE_PARTEDLIST:
             filter = index_group_filter(index);
             res = LIST(n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], 0);
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    // Check for non-null AND non-empty filter entry
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], 0);
-                        }
-                    }
-                }
-                res->len = j;
+            l = val->len;
+            for (i = 0, j = 0; i < l && j < n; i++) {
+                if (parted_selected(filter, i))
+                    AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], parted_first_row(filter, i));
             }
+            for (; j < n; j++)
+                AS_LIST(res)[j] = NULL_OBJ;
             return res;
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
             filter = index_group_filter(index);
-            if (n == 1) {
-                // Global first - return first element of first matching partition
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = val->len;
-                for (i = 0; i < l; i++) {
-                    obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
-                    if (filter == NULL_OBJ ||
-                        (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[0];
-                        break;
-                    }
-                }
-                return res;
-            }
             res = vector(AS_LIST(val)[0]->type, n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_B8(res)[i] = AS_B8(AS_LIST(val)[i])[0];
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[0];
-                        }
-                    }
-                }
+            l = val->len;
+            for (i = 0, j = 0; i < l && j < n; i++) {
+                if (parted_selected(filter, i))
+                    AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[parted_first_row(filter, i)];
             }
+            for (; j < n; j++)
+                AS_B8(res)[j] = 0;
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             filter = index_group_filter(index);
-            if (n == 1) {
-                // Global first - return first element of first matching partition
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = val->len;
-                for (i = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_I64(res)[0] = AS_I64(AS_LIST(val)[i])[0];
-                        break;
-                    }
-                }
-                return res;
-            }
             res = vector(AS_LIST(val)[0]->type, n);
-            if (filter == NULL_OBJ) {
-                // No filter - one result per partition
-                l = val->len;
-                for (i = 0; i < l; i++)
-                    AS_I64(res)[i] = AS_I64(AS_LIST(val)[i])[0];
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_I64(res)[j++] = AS_I64(AS_LIST(val)[i])[0];
-                }
-                resize_obj(&res, j);
+            l = val->len;
+            for (i = 0, j = 0; i < l && j < n; i++) {
+                if (parted_selected(filter, i))
+                    AS_I64(res)[j++] = AS_I64(AS_LIST(val)[i])[parted_first_row(filter, i)];
             }
-
+            for (; j < n; j++)
+                AS_I64(res)[j] = NULL_I64;
             return res;
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_first_partial, f64, f64,
@@ -809,37 +797,14 @@ obj_p aggr_first(obj_p val, obj_p index) {
             if (IS_ERR(ek))
                 return ek;
 
-            if (n == 1) {
-                // Global first - return first element of first matching partition
-                parts = I64(1);
-                l = val->len;
-                for (i = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_I64(parts)[0] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-                        break;
-                    }
-                }
-                res = enumerate(ek, parts);
-                return res;
-            }
-
-            // Create the values vector with size n (number of groups/matching partitions)
             parts = I64(n);
-
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                l = val->len;
-                for (i = 0; i < l; i++)
-                    AS_I64(parts)[i] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_I64(parts)[j++] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-                }
-                resize_obj(&parts, j);
+            l = val->len;
+            for (i = 0, j = 0; i < l && j < n; i++) {
+                if (parted_selected(filter, i))
+                    AS_I64(parts)[j++] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[parted_first_row(filter, i)];
             }
+            for (; j < n; j++)
+                AS_I64(parts)[j] = NULL_I64;
 
             res = enumerate(ek, parts);
             return res;
@@ -848,26 +813,14 @@ obj_p aggr_first(obj_p val, obj_p index) {
             if (filter == NULL_OBJ)
                 return clone_obj(AS_LIST(val)[0]);
 
-            if (n == 1) {
-                // Global first - return first matching value
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = filter->len;
-                for (i = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_DATE(res)[0] = AS_DATE(AS_LIST(val)[0])[i];
-                        break;
-                    }
-                }
-                return res;
-            }
-
             res = vector(AS_LIST(val)[0]->type, n);
             l = filter->len;
-
-            for (i = 0, j = 0; i < l; i++) {
-                if (AS_LIST(filter)[i] != NULL_OBJ)
+            for (i = 0, j = 0; i < l && j < n; i++) {
+                if (parted_selected(filter, i))
                     AS_DATE(res)[j++] = AS_DATE(AS_LIST(val)[0])[i];
             }
+            for (; j < n; j++)
+                AS_DATE(res)[j] = NULL_I32;
 
             return res;
         default:
@@ -923,7 +876,7 @@ obj_p aggr_last_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p ar
 
 obj_p aggr_last(obj_p val, obj_p index) {
     i64_t i, j, n, l;
-    obj_p parts, pos, res, filter;
+    obj_p parts, pos, res, ek, filter;
 
     n = index_group_count(index);
 
@@ -952,78 +905,44 @@ obj_p aggr_last(obj_p val, obj_p index) {
             return res;
         case TYPE_PARTEDLIST:
             filter = index_group_filter(index);
-            if (n == 1) {
-                // Global last - return last element of last matching partition
-                res = LIST(1);
-                l = val->len;
-                for (i = l - 1; i >= 0; i--) {
-                    obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
-                    if (filter == NULL_OBJ ||
-                        (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        AS_LIST(res)[0] = at_idx(AS_LIST(val)[i], -1);
-                        break;
-                    }
-                }
-                return res;
-            }
             res = LIST(n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], -1);
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], -1);
-                        }
-                    }
-                }
-                res->len = j;
+            l = val->len;
+            for (i = l - 1, j = n; i >= 0 && j > 0; i--) {
+                if (parted_selected(filter, i))
+                    AS_LIST(res)[--j] = at_idx(AS_LIST(val)[i], parted_last_row(val, filter, i));
             }
+            while (j > 0)
+                AS_LIST(res)[--j] = NULL_OBJ;
             return res;
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
             filter = index_group_filter(index);
-            if (n == 1) {
-                // Global last - return last element of last matching partition
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = val->len;
-                for (i = l - 1; i >= 0; i--) {
-                    obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
-                    if (filter == NULL_OBJ ||
-                        (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        i64_t pl = AS_LIST(val)[i]->len;
-                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[pl - 1];
-                        break;
-                    }
-                }
-                return res;
-            }
             res = vector(AS_LIST(val)[0]->type, n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++) {
-                    l = AS_LIST(val)[i]->len;
-                    AS_B8(res)[i] = AS_B8(AS_LIST(val)[i])[l - 1];
-                }
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            i64_t pl = AS_LIST(val)[i]->len;
-                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[pl - 1];
-                        }
-                    }
-                }
+            l = val->len;
+            for (i = l - 1, j = n; i >= 0 && j > 0; i--) {
+                if (parted_selected(filter, i))
+                    AS_B8(res)[--j] = AS_B8(AS_LIST(val)[i])[parted_last_row(val, filter, i)];
             }
+            while (j > 0)
+                AS_B8(res)[--j] = 0;
             return res;
+        case TYPE_PARTEDENUM:
+            filter = index_group_filter(index);
+            // Get the enum key from the first partition
+            ek = ray_key(AS_LIST(val)[0]);
+            if (IS_ERR(ek))
+                return ek;
+
+            parts = I64(n);
+            l = val->len;
+            for (i = l - 1, j = n; i >= 0 && j > 0; i--) {
+                if (parted_selected(filter, i))
+                    AS_I64(parts)[--j] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[parted_last_row(val, filter, i)];
+            }
+            while (j > 0)
+                AS_I64(parts)[--j] = NULL_I64;
+
+            return enumerate(ek, parts);
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
@@ -2048,11 +1967,13 @@ obj_p aggr_avg(obj_p val, obj_p index) {
         case TYPE_PARTEDF64:
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME: {
-            obj_p filter, pparts, ppart;
+            obj_p filter, pdata, pindex, pparts, ppart;
             f64_t total_sum;
             i64_t total_cnt;
 
             filter = index_group_filter(index);
+            pindex = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ,
+                             NULL_OBJ);
             l = val->len;
             res = F64(n);
             fo = AS_F64(res);
@@ -2063,12 +1984,15 @@ obj_p aggr_avg(obj_p val, obj_p index) {
                 total_cnt = 0;
                 for (i = 0; i < l; i++) {
                     // Skip partitions that don't match the filter
-                    if (filter != NULL_OBJ && AS_LIST(filter)[i] == NULL_OBJ)
+                    if (!parted_selected(filter, i))
                         continue;
 
-                    pparts = aggr_map_avg(AS_LIST(val)[i], index);
+                    pdata = parted_values(val, filter, i);
+                    pparts = aggr_map_avg(pdata, pindex);
+                    drop_obj(pdata);
                     if (IS_ERR(pparts)) {
                         drop_obj(res);
+                        drop_obj(pindex);
                         return pparts;
                     }
                     for (i64_t k = 0; k < pparts->len; k++) {
@@ -2082,10 +2006,13 @@ obj_p aggr_avg(obj_p val, obj_p index) {
             } else {
                 // Multiple groups - one result per matching partition
                 for (i = 0, j = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        pparts = aggr_map_avg(AS_LIST(val)[i], index);
+                    if (parted_selected(filter, i)) {
+                        pdata = parted_values(val, filter, i);
+                        pparts = aggr_map_avg(pdata, pindex);
+                        drop_obj(pdata);
                         if (IS_ERR(pparts)) {
                             drop_obj(res);
+                            drop_obj(pindex);
                             return pparts;
                         }
 
@@ -2103,6 +2030,7 @@ obj_p aggr_avg(obj_p val, obj_p index) {
                     }
                 }
             }
+            drop_obj(pindex);
             return res;
         }
 
@@ -2889,11 +2817,13 @@ obj_p aggr_dev(obj_p val, obj_p index) {
         case TYPE_PARTEDF64:
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME: {
-            obj_p filter, pparts, ppart;
+            obj_p filter, pdata, pindex, pparts, ppart;
             f64_t total_sum, total_sumsq;
             i64_t total_cnt;
 
             filter = index_group_filter(index);
+            pindex = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ,
+                             NULL_OBJ);
             l = val->len;
             res = F64(n);
             fo = AS_F64(res);
@@ -2905,12 +2835,15 @@ obj_p aggr_dev(obj_p val, obj_p index) {
                 total_cnt = 0;
                 for (i = 0; i < l; i++) {
                     // Skip partitions that don't match the filter
-                    if (filter != NULL_OBJ && AS_LIST(filter)[i] == NULL_OBJ)
+                    if (!parted_selected(filter, i))
                         continue;
 
-                    pparts = aggr_map_dev(AS_LIST(val)[i], index);
+                    pdata = parted_values(val, filter, i);
+                    pparts = aggr_map_dev(pdata, pindex);
+                    drop_obj(pdata);
                     if (IS_ERR(pparts)) {
                         drop_obj(res);
+                        drop_obj(pindex);
                         return pparts;
                     }
                     for (i64_t k = 0; k < pparts->len; k++) {
@@ -2933,10 +2866,13 @@ obj_p aggr_dev(obj_p val, obj_p index) {
             } else {
                 // Multiple groups - one result per matching partition
                 for (i = 0, j = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        pparts = aggr_map_dev(AS_LIST(val)[i], index);
+                    if (parted_selected(filter, i)) {
+                        pdata = parted_values(val, filter, i);
+                        pparts = aggr_map_dev(pdata, pindex);
+                        drop_obj(pdata);
                         if (IS_ERR(pparts)) {
                             drop_obj(res);
+                            drop_obj(pindex);
                             return pparts;
                         }
 
@@ -2964,6 +2900,7 @@ obj_p aggr_dev(obj_p val, obj_p index) {
                     }
                 }
             }
+            drop_obj(pindex);
             return res;
         }
 
@@ -3045,23 +2982,28 @@ obj_p aggr_collect(obj_p val, obj_p index) {
         case TYPE_PARTEDGUID:
         case TYPE_PARTEDENUM:
         case TYPE_PARTEDLIST:
-            // For parted types with INDEX_TYPE_PARTEDCOMMON, each partition is a group
-            // Collect all values from matching partitions
+            // For parted types with INDEX_TYPE_PARTEDCOMMON, each partition with selected rows is a group,
+            // all of them are a single one when there is no grouping
             drop_obj(res);
             filter = index_group_filter(index);
             res = LIST(n);
-            if (filter == NULL_OBJ) {
-                // No filter - each partition is a group
-                for (i = 0; i < (i64_t)val->len; i++)
-                    AS_LIST(res)[i] = ray_value(AS_LIST(val)[i]);
-            } else {
-                // With filter - only include matching partitions
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_LIST(res)[j++] = ray_value(AS_LIST(val)[i]);
+            l = val->len;
+            if (n == 1)
+                AS_LIST(res)[0] = NULL_OBJ;
+            for (i = 0, j = 0; i < l; i++) {
+                if (!parted_selected(filter, i))
+                    continue;
+                v = parted_values(val, filter, i);
+                if (n != 1) {
+                    AS_LIST(res)[j++] = v;
+                } else if (AS_LIST(res)[0] == NULL_OBJ) {
+                    AS_LIST(res)[0] = v;
+                } else {
+                    k = ray_concat(AS_LIST(res)[0], v);
+                    drop_obj(v);
+                    drop_obj(AS_LIST(res)[0]);
+                    AS_LIST(res)[0] = k;
                 }
-                res->len = j;
             }
             return res;
         default:
@@ -3070,6 +3012,33 @@ obj_p aggr_collect(obj_p val, obj_p index) {
     }
 }
 
+// Numbers of the selected rows, counted over all the parts
+static obj_p aggr_row_parted(obj_p val, i64_t n, obj_p filter) {
+    i64_t i, j, k, l, m, o, c, row;
+    obj_p *rows, ids, res;
+
+    res = LIST(n);
+    for (i = 0; i < n; i++)
+        AS_LIST(res)[i] = I64(0);
+
+    l = (val->type == TYPE_MAPCOMMON) ? AS_LIST(val)[1]->len : val->len;
+    for (i = 0, j = 0, row = 0; i < l && (j < n || n == 1); i++, row += m) {
+        m = (val->type == TYPE_MAPCOMMON) ? AS_I64(AS_LIST(val)[1])[i] : ops_count(AS_LIST(val)[i]);
+        if (!parted_selected(filter, i))
+            continue;
+
+        rows = AS_LIST(res) + ((n == 1) ? 0 : j++);
+        ids = parted_ids(filter, i);
+        c = (ids == NULL_OBJ) ? m : ids->len;
+        o = (*rows)->len;
+        resize_obj(rows, o + c);
+        for (k = 0; k < c; k++)
+            AS_I64(*rows)[o + k] = row + ((ids == NULL_OBJ) ? k : AS_I64(ids)[k]);
+    }
+
+    return res;
+}
+
 obj_p aggr_row(obj_p val, obj_p index) {
     i64_t i, l, n;
     obj_p res;
@@ -3077,6 +3046,10 @@ obj_p aggr_row(obj_p val, obj_p index) {
     l = index_group_len(index);
     n = index_group_count(index);
 
+    if (val->type == TYPE_MAPCOMMON || val->type == TYPE_PARTEDENUM ||
+        (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID))
+        return aggr_row_parted(val, n, index_group_filter(index));
+
     res = LIST(n);
     for (i = 0; i < n; i++)
         AS_LIST(res)[i] = I64(0);
diff --git a/core/compose.c b/core/compose.c
index 1066649..c9c127c 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1265,8 +1265,12 @@ obj_p ray_row(obj_p x) {
             if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
-                obj_p res = aggr_row(val, index);
+                obj_p cnt = aggr_count(val, index);
                 drop_obj(index);
+                if (IS_ERR(cnt))
+                    return cnt;
+                obj_p res = i64(AS_I64(cnt)[0]);
+                drop_obj(cnt);
                 return res;
             }
             obj_p collected = filter_collect(val, filter);
@@ -1274,24 +1278,6 @@ obj_p ray_row(obj_p x) {
             drop_obj(collected);
             return res;
         }
-        case TYPE_PARTEDB8:
-        case TYPE_PARTEDU8:
-        case TYPE_PARTEDI16:
-        case TYPE_PARTEDI32:
-        case TYPE_PARTEDI64:
-        case TYPE_PARTEDF64:
-        case TYPE_PARTEDDATE:
-        case TYPE_PARTEDTIME:
-        case TYPE_PARTEDTIMESTAMP:
-        case TYPE_PARTEDGUID:
-        case TYPE_PARTEDENUM:
-        case TYPE_PARTEDLIST: {
-            obj_p index =
-                vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ, NULL_OBJ);
-            obj_p res = aggr_row(x, index);
-            drop_obj(index);
-            return res;
-        }
         default:
             return i64(ops_count(x));
     }
-- 
2.43.0


From dc61d840d8389329dbcb2243a9571afc33b8e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:33 +0000
Subject: [PATCH 89/98] fix: timer gives the id by which the timer is removed,
 and removal keeps the order of the others

---
 core/chrono.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index f89a20f..fa18c0a 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -286,7 +286,12 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
 
-    return timer_push(timers, timer);
+    if (timer_push(timers, timer) == -1) {
+        timer_free(timer);
+        return -1;
+    }
+
+    return id;
 }
 
 nil_t timer_del(timers_p timers, i64_t id) {
@@ -294,15 +299,15 @@ nil_t timer_del(timers_p timers, i64_t id) {
 
     l = (i64_t)timers->size;
 
-    if (id < 0 || id >= l)
-        return;
-
     for (i = 0; i < l; i++) {
         if (timers->timers[i]->id == id) {
             timer_free(timers->timers[i]);
             timers->timers[i] = timers->timers[timers->size - 1];
             timers->size--;
-            timer_down(timers, i);
+            if (i < timers->size) {
+                timer_down(timers, i);
+                timer_up(timers, i);
+            }
             return;
         }
     }
-- 
2.43.0


From 9da6e5b639dc1e2f2743cd96aa25afc7134cd8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:42 +0000
Subject: [PATCH 90/98] fix: a timer with count 0 goes on until it is removed

---
 core/chrono.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index fa18c0a..39141b6 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -336,9 +336,10 @@ i64_t timer_next_timeout(timers_p timers) {
         drop_obj(res);
 
         // Check if the timer should be repeated
-        if (timer->num > 0) {
-            if (timer->num > 1) {
-                timer->num--;  // Decrement repeat count if not infinite
+        if (timer->num > 0 || timer->num == NULL_I64) {
+            if (timer->num != 1) {
+                if (timer->num != NULL_I64)
+                    timer->num--;  // Decrement repeat count if not infinite
 
                 // Update the timer's expiration time for the next occurrence
                 timer->exp += timer->tic;
-- 
2.43.0


From 8490977046bc7de0b1d52c0bdca9f0a53071d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:52 +0000
Subject: [PATCH 91/98] fix: there can be more than 16 timers

---
 core/chrono.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index 39141b6..d5bb336 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -236,8 +236,10 @@ nil_t timer_down(timers_p timers, i64_t index) {
 }
 
 i64_t timer_push(timers_p timers, ray_timer_p timer) {
-    if (timers->size == timers->capacity)
-        return -1;
+    if (timers->size == timers->capacity) {
+        timers->capacity *= 2;
+        timers->timers = (ray_timer_p *)heap_realloc(timers->timers, timers->capacity * sizeof(ray_timer_p));
+    }
 
     timers->timers[timers->size] = timer;
     timer_up(timers, timers->size);
@@ -286,10 +288,7 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
 
-    if (timer_push(timers, timer) == -1) {
-        timer_free(timer);
-        return -1;
-    }
+    timer_push(timers, timer);
 
     return id;
 }
-- 
2.43.0


From 8e75bfc351d6c8e55a061e18cd6af24b2402cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:30 +0000
Subject: [PATCH 92/98] fix: a timer removed by its own callback is not called
 again

---
 core/chrono.c | 9 +++++++++
 core/chrono.h | 1 +
 2 files changed, 10 insertions(+)

diff --git a/core/chrono.c b/core/chrono.c
index d5bb336..347a202 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -265,6 +265,7 @@ timers_p timers_create(i64_t capacity) {
     timers->capacity = capacity;
     timers->size = 0;
     timers->counter = 0;
+    timers->current = NULL;
 
     return timers;
 }
@@ -298,6 +299,12 @@ nil_t timer_del(timers_p timers, i64_t id) {
 
     l = (i64_t)timers->size;
 
+    // A timer whose callback is running is not in the heap: it is not called again
+    if (timers->current != NULL && timers->current->id == id) {
+        timers->current->num = 1;
+        return;
+    }
+
     for (i = 0; i < l; i++) {
         if (timers->timers[i]->id == id) {
             timer_free(timers->timers[i]);
@@ -325,8 +332,10 @@ i64_t timer_next_timeout(timers_p timers) {
         timer = timer_pop(timers);
 
         // Execute the callback associated with the timer
+        timers->current = timer;
         vm_stack_push(i64(now));
         res = call(timer->clb, 1);
+        timers->current = NULL;
         drop_obj(vm_stack_pop());
 
         if (IS_ERR(res))
diff --git a/core/chrono.h b/core/chrono.h
index 1b65deb..706c716 100644
--- a/core/chrono.h
+++ b/core/chrono.h
@@ -42,6 +42,7 @@ typedef struct timers_t {
     i64_t capacity;       // Maximum size of the heap
     i64_t size;           // Current number of timers in the heap
     i64_t counter;        // Counter to assign unique IDs to timers
+    ray_timer_p current;  // Timer whose callback is running
 } *timers_p;
 
 #if defined(OS_WINDOWS)
-- 
2.43.0


From 2e48173ca940ce0b9e19da29394d0da302dd12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 93/98] fix: a mask of another length, or of other parts, than
 the rows of a table it selects gives an error

---
 core/index.c  |  2 ++
 core/query.c  | 77 ++++++++++++++++++++++++++++++++++++++++++++++++---
 core/query.h  |  4 ++-
 core/update.c |  8 +++++-
 4 files changed, 85 insertions(+), 6 deletions(-)

diff --git a/core/index.c b/core/index.c
index 4cfb225..bf3aa1a 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2234,6 +2234,8 @@ obj_p index_group(obj_p val, obj_p filter) {
                         // Empty vector (len == 0) - don't count
                     }
                 }
+            } else if (filter != NULL_OBJ) {
+                return err_type(TYPE_PARTEDI64, filter->type, 0, 0);
             } else {
                 g = AS_LIST(val)[0]->len;
             }
diff --git a/core/query.c b/core/query.c
index 8c2796a..7005255 100644
--- a/core/query.c
+++ b/core/query.c
@@ -38,14 +38,77 @@
 
 obj_p remap_filter(obj_p tab, obj_p index) { return filter_map(tab, index); }
 
-obj_p group_check(obj_p cols, b8_t multi, i64_t len) {
-    i64_t i, l = multi ? cols->len : 1;
-    obj_p col;
+// Parts of a column of a parted table, -1 for any other column
+static i64_t parts_count(obj_p col) {
+    if (col->type == TYPE_MAPCOMMON)
+        return AS_LIST(col)[0]->len;
+
+    return (col->type >= TYPE_PARTEDLIST && col->type <= TYPE_PARTEDENUM) ? col->len : -1;
+}
+
+static i64_t part_len(obj_p col, i64_t i) {
+    return (col->type == TYPE_MAPCOMMON) ? AS_I64(AS_LIST(col)[1])[i] : ops_count(AS_LIST(col)[i]);
+}
+
+// A parted table is grouped by a column with one value for each of its parts, other tables are not
+static obj_p group_check_parts(obj_p tab, obj_p col) {
+    i64_t i, j, l, n = (col->type == TYPE_MAPCOMMON) ? parts_count(col) : -1;
+    obj_p c;
+
+    l = AS_LIST(tab)[1]->len;
+    for (i = 0; i < l; i++) {
+        c = AS_LIST(AS_LIST(tab)[1])[i];
+        if (parts_count(c) != n)
+            return err_type(c->type, col->type, 0, 0);
+
+        for (j = 0; j < n; j++)
+            if (part_len(c, j) != part_len(col, j))
+                return err_length(part_len(c, j), part_len(col, j), 0, 0, 0, 0);
+    }
+
+    return NULL_OBJ;
+}
+
+obj_p group_check(obj_p tab, obj_p cols, b8_t multi) {
+    i64_t i, l = multi ? cols->len : 1, len = ops_count(tab);
+    obj_p col, res;
 
     for (i = 0; i < l; i++) {
         col = multi ? AS_LIST(cols)[i] : cols;
         if (IS_ATOM(col) || ops_count(col) != len)
             return err_length(len, ops_count(col), 0, 0, 0, 0);
+
+        res = group_check_parts(tab, col);
+        if (IS_ERR(res))
+            return res;
+    }
+
+    return NULL_OBJ;
+}
+
+obj_p filter_check(obj_p tab, obj_p mask) {
+    i64_t i, j, l, n;
+    obj_p col;
+
+    if (mask->type == TYPE_B8) {
+        n = ops_count(tab);
+        return (mask->len == n) ? NULL_OBJ : err_length(n, mask->len, 0, 0, 0, 0);
+    }
+
+    if (mask->type != TYPE_PARTEDB8)
+        return NULL_OBJ;
+
+    // The parts of a mask are those of the table: there is no vector for a part with no or all rows selected
+    n = mask->len;
+    l = AS_LIST(tab)[1]->len;
+    for (i = 0; i < l; i++) {
+        col = AS_LIST(AS_LIST(tab)[1])[i];
+        if (parts_count(col) != n)
+            return err_type(mask->type, col->type, 0, 0);
+
+        for (j = 0; j < n; j++)
+            if (IS_VECTOR(AS_LIST(mask)[j]) && AS_LIST(mask)[j]->len != part_len(col, j))
+                return err_length(part_len(col, j), AS_LIST(mask)[j]->len, 0, 0, 0, 0);
     }
 
     return NULL_OBJ;
@@ -56,7 +119,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
     obj_p index, v, lst, res, src_col;
 
     if (gkeys->type == -TYPE_SYMBOL || gkeys->type == TYPE_SYMBOL) {
-        res = group_check(cols, gkeys->type == TYPE_SYMBOL, ops_count(ctx->table));
+        res = group_check(ctx->table, cols, gkeys->type == TYPE_SYMBOL);
         if (IS_ERR(res))
             return res;
     }
@@ -344,6 +407,12 @@ obj_p select_apply_filters(obj_p obj, query_ctx_p ctx) {
         if (IS_ERR(val))
             return val;
 
+        fil = filter_check(ctx->table, val);
+        if (IS_ERR(fil)) {
+            drop_obj(val);
+            return fil;
+        }
+
         fil = ray_where(val);
         timeit_tick("find indices");
         drop_obj(val);
diff --git a/core/query.h b/core/query.h
index 15ce8cb..2b951ae 100644
--- a/core/query.h
+++ b/core/query.h
@@ -46,7 +46,9 @@ obj_p get_fields(obj_p obj);
 obj_p remap_filter(obj_p x, obj_p y);
 obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_p ctx);
 // Checks that there is a value for every row of a table in each of the columns it is grouped by
-obj_p group_check(obj_p cols, b8_t multi, i64_t len);
+obj_p group_check(obj_p tab, obj_p cols, b8_t multi);
+// Checks that there is an entry for every row of a table in the mask its rows are selected by
+obj_p filter_check(obj_p tab, obj_p mask);
 obj_p get_gvals(obj_p obj);
 obj_p ray_select(obj_p obj);
 
diff --git a/core/update.c b/core/update.c
index 13e0e67..58310d2 100644
--- a/core/update.c
+++ b/core/update.c
@@ -1013,6 +1013,12 @@ obj_p ray_update(obj_p obj) {
             goto cleanup;
         }
 
+        res = filter_check(tab, val);
+        if (IS_ERR(res)) {
+            drop_obj(val);
+            goto cleanup;
+        }
+
         filters = ray_where(val);
         drop_obj(val);
         if (IS_ERR(filters)) {
@@ -1036,7 +1042,7 @@ obj_p ray_update(obj_p obj) {
             goto cleanup;
         }
 
-        res = group_check(groupby, multi, ops_count(tab));
+        res = group_check(tab, groupby, multi);
         if (IS_ERR(res))
             goto cleanup;
 
-- 
2.43.0


From 6a006e5f7db33e5ec1f6c2d58c6acf9419183aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 94/98] fix: rows of a parted table selected by a plain mask
 keep their types

---
 core/rayforce.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 69c447a..7eba12c 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1250,7 +1250,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return table(clone_obj(AS_LIST(obj)[0]), cols);
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1276,7 +1276,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
         case TYPE_PARTEDI32:
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1289,7 +1289,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
-- 
2.43.0


From 04a41150026a4f82ae379667593d8bb8342025d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 95/98] fix: insert and upsert refuse a parted table

---
 core/update.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/update.c b/core/update.c
index 58310d2..25b6b0c 100644
--- a/core/update.c
+++ b/core/update.c
@@ -143,6 +143,23 @@ static b8_t __is_record(obj_p lst) {
     return B8_FALSE;
 }
 
+// Whether rows can be added to a table: not to the columns of a parted one
+static b8_t __is_growing(obj_p tab) {
+    i64_t i;
+    obj_p col;
+
+    if (tab->type != TYPE_TABLE)
+        return B8_FALSE;
+
+    for (i = 0; i < AS_LIST(tab)[1]->len; i++) {
+        col = AS_LIST(AS_LIST(tab)[1])[i];
+        if (!IS_VECTOR(col) && col->type != TYPE_MAPLIST)
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
 static i8_t __row_type(obj_p col) { return (col->type == TYPE_ENUM) ? TYPE_SYMBOL : col->type; }
 
 // Null value for a column
@@ -566,7 +583,7 @@ obj_p ray_insert(obj_p *x, i64_t n) {
     if (IS_ERR(obj))
         return obj;
 
-    if (obj->type != TYPE_TABLE) {
+    if (!__is_growing(obj)) {
         res = err_type(0, 0, 0, 0);
         UNCOW_OBJ(obj, val, original, res);
     }
@@ -667,7 +684,7 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 
     lst = x[2];
 
-    if (obj->type != TYPE_TABLE)
+    if (!__is_growing(obj))
         UPSERT_ERROR(err_type(TYPE_TABLE, obj->type, 0, 0));
 
     p = AS_LIST(obj)[0]->len;
-- 
2.43.0


From 816b95350767a4b325708527c42bce18f00d5605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 96/98] fix: a condition over whole parts has no values

---
 core/items.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/items.c b/core/items.c
index 7d79775..9079feb 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1333,6 +1333,12 @@ obj_p ray_value(obj_p x) {
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
             l = x->len;
+
+            // A condition over whole parts has no vectors in it
+            for (i = 0; i < l; i++)
+                if (!IS_VECTOR(AS_LIST(x)[i]))
+                    return err_type(TYPE_B8, AS_LIST(x)[i]->type, 0, 0);
+
             n = ops_count(x);
             res = vector(AS_LIST(x)[0]->type, n);
             u8ptr = AS_U8(res);
-- 
2.43.0


From efa9a35190d5b5987ee00b4b0b0f190a9ae1537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 97/98] fix: a column with one value for each part is compared
 with atoms

---
 core/cmp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/cmp.c b/core/cmp.c
index 97601e0..c4b0d3c 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -288,6 +288,10 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     ray_cmp_f cmp_fn = (ray_cmp_f)op;
 
     if (x->type == TYPE_MAPCOMMON) {
+        // There is one value for a whole part
+        if (!IS_ATOM(y))
+            return err_type(x->type, y->type, 0, 0);
+
         l = AS_LIST(x)[0]->len;
         res = B8(l);
         v = cmp_fn(AS_LIST(x)[0], y, l, 0, res);
@@ -306,6 +310,9 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
 
         return map;
     } else if (y->type == TYPE_MAPCOMMON) {
+        if (!IS_ATOM(x))
+            return err_type(x->type, y->type, 0, 0);
+
         l = AS_LIST(y)[0]->len;
         res = B8(l);
         v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
-- 
2.43.0


From e52916394deb43cf800891455e0fd598006dfed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 98/98] fix: meta of an enumeration kept in a file

---
 core/misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/misc.c b/core/misc.c
index 5a8587a..0a3f3ce 100644
--- a/core/misc.c
+++ b/core/misc.c
@@ -25,6 +25,7 @@
 #include "ops.h"
 #include "runtime.h"
 #include "aggr.h"
+#include "items.h"
 #include "index.h"
 #include "filter.h"
 #include "lambda.h"
@@ -237,7 +238,7 @@ static obj_p meta_enum(obj_p x) {
     AS_LIST(vals)[0] = symboli64(env_get_typename_by_type(&runtime_get()->env, x->type));
     AS_LIST(vals)[1] = i64(x->len);
     AS_LIST(vals)[2] = i64(x->mmod);
-    AS_LIST(vals)[3] = clone_obj(AS_LIST(x)[0]);  // domain is stored as first element
+    AS_LIST(vals)[3] = ray_key(x);  // the domain of an enum from a file is not a list element
 
     return dict(keys, vals);
 }
-- 
2.43.0

