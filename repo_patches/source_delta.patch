From 0768810ad356f2c068d0f283bb6917e0b6636ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 01/24] fix: syrk must use the leading dimension of A to index
 A

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2564a31..c97f2ee 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1475,7 +1475,7 @@ OPK_SYRK(opk_blas_uplo uplo,
 #undef c
 #define c(a1,a2) c_[(a2)*ldc + a1]
 #undef a
-#define a(a1,a2) a_[(a2)*ldc + a1]
+#define a(a1,a2) a_[(a2)*lda + a1]
 
   /* Local constants and variables. */
   const real_t ZERO = OPK_REALCONST(0.0);
-- 
2.43.0


From 7d6193354fe767c9ff56a7c891bb25b2a3624c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 02/24] fix: gemm must report an invalid TRANSB as its 2nd
 argument

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index c97f2ee..8cb8fb9 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1324,7 +1324,7 @@ OPK_GEMM(opk_blas_trans transa,
     notb = 0;
     nrowb = n;
   } else {
-    return 1;
+    return 2;
   }
   if (m < 0) return 3;
   if (n < 0) return 4;
-- 
2.43.0


From e07d888b5bd2a2f8a4bd40dd5dc12a93a3af3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 03/24] fix: nrm2 must not overflow for tiny values (inverse of
 a subnormal)

---
 src/linalg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index 8cb8fb9..4bb55db 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -550,7 +550,6 @@ OPK_NRM2(opk_index n, const real_t x[],
          opk_index incx)
 {
   const real_t ZERO = OPK_REALCONST(0.0);
-  const real_t ONE = OPK_REALCONST(1.0);
   real_t a, b, s, t;
   opk_index i, m;
 
@@ -581,16 +580,15 @@ OPK_NRM2(opk_index n, const real_t x[],
 
   /* Compute sum of squares avoiding overflows. */
   s = ZERO;
-  b = ONE/a;
   if (incx == 1) {
     for (i = 0; i < n; ++i) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   } else {
     m = n*incx;
     for (i = 0; i < m; i += incx) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   }
-- 
2.43.0


From de07d57fb8470b5e2d70938eec317ea1c9a6430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 04/24] fix: description of NLCG methods may overflow its
 buffer and ignores NULL destination

---
 src/nlcg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..508b55d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,10 +595,10 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[128];
   int and;
 
-  if (opt == NULL || (buf == NULL && size > 0)) {
+  if (opt == NULL) {
     return 0;
   }
   switch (opt->flags & 0xff) {
-- 
2.43.0


From 79a8b26b1f4eb26b0ca3d799e13628f33b03c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 05/24] fix: opk_get_description must accept a NULL optimizer
 like the other queries

---
 src/driver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..d7513b8 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -523,7 +523,11 @@ opk_get_name(char* buf, size_t size, const opk_optimizer* opt)
 size_t
 opk_get_description(char* buf, size_t size, const opk_optimizer* opt)
 {
-  return opt->ops->get_description(buf, size, opt);
+  if (opt == NULL) {
+    return opk_copy_string(buf, size, "");
+  } else {
+    return opt->ops->get_description(buf, size, opt);
+  }
 }
 
 double
-- 
2.43.0


From 86db538e319d17e0051cdf644ad891f9f86cd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 06/24] fix: textual descriptions of the convergence tests of
 the line search were mixed up

---
 src/optimpack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimpack.h b/src/optimpack.h
index 7167da8..3485671 100644
--- a/src/optimpack.h
+++ b/src/optimpack.h
@@ -303,11 +303,11 @@ OPK_BEGIN_C_DECLS
   OPK_STATUS_(14, OPK_STEP_LT_STPMIN, "Step lesser than lower bound")   \
   OPK_STATUS_(15, OPK_STEP_GT_STPMAX, "Step greater than upper bound")  \
   OPK_STATUS_(16, OPK_FTOL_TEST_SATISFIED,                              \
-              "Convergence within variable tolerance")                  \
+              "Convergence within function tolerance")                  \
   OPK_STATUS_(17, OPK_GTOL_TEST_SATISFIED,                              \
-                "Convergence within function tolerance")                \
-  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
                 "Convergence within gradient tolerance")                \
+  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
+                "Convergence within variable tolerance")                \
   OPK_STATUS_(19, OPK_STEP_EQ_STPMAX, "Step blocked at upper bound")    \
   OPK_STATUS_(20, OPK_STEP_EQ_STPMIN, "Step blocked at lower bound")    \
   OPK_STATUS_(21, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS,                 \
-- 
2.43.0


From 566d041ff4d6076174fe40272defb94859283d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 07/24] fix: opk_hold_object must accept a NULL argument as
 documented

---
 src/algebra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..8674ad9 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -61,7 +61,9 @@ opk_allocate_object(void (*finalize)(opk_object* self),
 opk_object*
 opk_hold_object(opk_object* obj)
 {
-  ++obj->references;
+  if (obj != NULL) {
+    ++obj->references;
+  }
   return obj;
 }
 
-- 
2.43.0


From 08e1bfada0a79b0c724cfe285277b94b2adc8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 08/24] fix: opk_new_boxset must set errno to ENOMEM when a
 bound cannot be allocated

---
 src/algebra.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index 8674ad9..0b58fba 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -846,10 +846,13 @@ opk_new_boxset(opk_vspace* space,
                                               freevar, steplim,
                                               sizeof(opk_boxset));
   if (box != NULL) {
-    if (set_bound(space, &box->lower, lower_type, lower) != OPK_SUCCESS ||
-        set_bound(space, &box->upper, upper_type, upper) != OPK_SUCCESS) {
+    opk_status status = set_bound(space, &box->lower, lower_type, lower);
+    if (status == OPK_SUCCESS) {
+      status = set_bound(space, &box->upper, upper_type, upper);
+    }
+    if (status != OPK_SUCCESS) {
       OPK_DROP(box);
-      errno = EINVAL;
+      errno = (status == OPK_INSUFFICIENT_MEMORY ? ENOMEM : EINVAL);
       return NULL;
     }
   }
-- 
2.43.0


From 9f27dbb3553aedcc06e069ee98fcfe314c447322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 09/24] fix: opk_new_optimizer must check the allocation of the
 optimizer

---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index d7513b8..9464b12 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From 5d7d79535ec55b1987b3cb4bace5d5a1cc81cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 10/24] fix: line search convergence at a step bound must not
 be turned into a warning

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..041d1c0 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -175,12 +175,12 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
   if (*stp_ptr <= ls->stpmin) {
-    if (bound < 0) {
+    if (bound < 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMIN);
     }
     *stp_ptr = ls->stpmin;
   } else if (*stp_ptr >= ls->stpmax) {
-    if (bound > 0) {
+    if (bound > 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMAX);
     }
     *stp_ptr = ls->stpmax;
-- 
2.43.0


From 0ea9ee093800894042d732b0370e025c528b1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 11/24] fix: line search methods must return OPK_LNSRCH_ERROR
 for an illegal address

---
 src/lnsrch.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 041d1c0..7e0598f 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -126,7 +126,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (stpmin < 0) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
@@ -157,8 +157,11 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
 {
   int bound;
 
-  if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+  if (ls == NULL) {
+    return OPK_LNSRCH_ERROR;
+  }
+  if (stp_ptr == NULL) {
+    return failure(ls, OPK_ILLEGAL_ADDRESS);
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From 5240908d656f8552990789ca9bde7d6c414e3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 12/24] fix: line search constructors must reject NaN
 parameters

---
 src/lnsrch.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 7e0598f..1d3dc58 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -310,7 +310,8 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  if (non_finite(ftol) || ftol <= 0 || ftol > 0.5 ||
+      non_finite(amin) || amin <= 0 || amin >= 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -428,7 +429,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
@@ -654,15 +655,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (isnan(ftol) || ftol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (isnan(gtol) || gtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (isnan(xtol) || xtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From 0d32cd81d6aac88d5bf6e792b95b15be31a40920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 13/24] fix: always project the trial points of a bounded
 problem

The shortcut of not projecting the variables until the first bound is
overcome yields trial points which violate the bounds because of rounding
errors.
---
 src/vmlmb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..d56eca6 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -732,7 +732,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
+    /* Always project: even before the first bound is overcome, rounding errors
+       may yield a point which is (slightly) outside of the bounds. */
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From d67a510432a6b3a320f8e1d97c6189aa7a0071ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:48 +0000
Subject: [PATCH 14/24] fix: honor fmin_given option in the NLCG optimizer

The constructor copied the value of fmin but not fmin_given, so the bound
given via the options was never used to scale the initial step.
---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 508b55d..e16610d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From 586710f96bc3e71ae614c6f3619bf6fb3a7cb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 15/24] fix: opk_fmin must not take a limit of 0 evaluations as
 no limit

The documentation states that only a negative value means no limits.
---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..51b4cb3 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -526,7 +526,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -548,7 +548,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From 78cd60589d38cfba5bd6cf0bf7672e4633402126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 16/24] fix: opk_fmin_get_final must return the end-points of
 the bracket

The best point was returned in place of one of the end-points.
---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 51b4cb3..e094ebf 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From 9cf23d89d4ddfaa32ca6b9f8d97c812b6337a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 17/24] fix: opk_fmin_next can be continued after convergence

The last evaluation was accounted for twice.
---
 src/fmin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fmin.c b/src/fmin.c
index e094ebf..e19a495 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -232,6 +232,7 @@ opk_fmin_get_final(opk_fmin_context* ctx,
  *    ctx->stage =  3    evaluation of f(x) for x inside (a,b)
  *    ctx->stage =  4    evaluation of f(x) while trying to bracket
  *    ctx->stage =  5    evaluation of f(x) while converging
+ *    ctx->stage =  6    convergence
  */
 
 opk_fmin_task
@@ -293,6 +294,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
       JUMP(3);
       JUMP(4);
       JUMP(5);
+      JUMP(6);
     default:
       return (ctx->status = OPK_FMIN_ERROR);
     }
@@ -346,7 +348,9 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
     if ((t = fabs(v)) > r) r = t;
     if ((t = fabs(w)) > r) r = t;
     if (fabs(w - v) <= prec*r) {
+      ctx->stage = 6;
       return (ctx->status = OPK_FMIN_CONVERGENCE);
+    stage_6: /* continue after convergence */ ;
     }
 
     /* Take a golden section interpolation step. */
-- 
2.43.0


From d0b1bc312515049207e29768d42b04efe5fa03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 18/24] fix: bobyqa_optimize with scaling must not violate the
 bounds by rounding errors

---
 src/bobyqa.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..4b92843 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* lower bounds (without scaling) */
+  const REAL*    xu;     /* upper bounds (without scaling) */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               unscale((ctx)->ws, (ctx), (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,20 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* Convert the scaled variables into the ones of the caller.  The result is
+   clamped because, due to rounding errors, `scl[i]*(xu[i]/scl[i])` may be
+   greater than `xu[i]` (and similarly for the lower bound). */
+static REAL*
+unscale(REAL* dst, const context* ctx, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -370,6 +375,8 @@ bobyqa_status bobyqa_optimize(
   ctx.objfun = objfun;
   ctx.data = data;
   ctx.scl = NULL;
+  ctx.xl = xl;
+  ctx.xu = xu;
   ctx.ws = NULL;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
@@ -479,7 +486,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    unscale(x, &ctx, x);
   }
 
   /* Return status. */
-- 
2.43.0


From 8c1699929165eacbb9eec238e6bef1061bd7a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 19/24] fix: bobyqa must leave the variables unchanged when the
 bounds are too close

---
 src/bobyqa.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 4b92843..c7a6f98 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -401,7 +401,6 @@ bobyqa_status bobyqa_optimize(
       REAL* tmpxu = tmpxl + n;
       for (j = 0; j < n; ++j) {
         REAL s = one/scl[j];
-        x[j] *= s;
         tmpxl[j] = s*xl[j];
         tmpxu[j] = s*xu[j];
       }
@@ -435,12 +434,8 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
-     the construction of the first quadratic model.  The lower and upper bounds
-     on moves from the updated X are set now, in the ISL and ISU partitions of
-     W, in order to provide useful and exact information about components of X
-     that become within distance RHOBEG from their bounds. */
+  /* Return if there is insufficient space between the bounds (leaving the
+     variables unchanged). */
   for (j = 0; j < n; ++j) {
     temp = xu[j] - xl[j];
     if (temp < rhobeg + rhobeg) {
@@ -449,6 +444,20 @@ bobyqa_status bobyqa_optimize(
       }
       return BOBYQA_TOO_CLOSE;
     }
+  }
+  if (ctx.scl != NULL) {
+    for (j = 0; j < n; ++j) {
+      x[j] *= one/ctx.scl[j];
+    }
+  }
+
+  /* Modify the initial X if necessary in order to avoid conflicts between the
+     bounds and the construction of the first quadratic model.  The lower and
+     upper bounds on moves from the updated X are set now, in the ISL and ISU
+     partitions of W, in order to provide useful and exact information about
+     components of X that become within distance RHOBEG from their bounds. */
+  for (j = 0; j < n; ++j) {
+    temp = xu[j] - xl[j];
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From 0a5c45359e895c3668db916f3220916f1c203755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 20/24] fix: get_rho after a restart and during the initial
 phase of newuoa_iterate

---
 src/cobyla.c | 1 +
 src/newuoa.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..0c11597 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -266,6 +266,7 @@ cobyla_restart(cobyla_context* ctx)
     return COBYLA_BAD_ADDRESS;
   }
   ctx->nfvals = 0;
+  ctx->rho = 0; /* not yet started */
   ctx->status = COBYLA_ITERATE;
   return ctx->status;
 }
diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..40bd7c7 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -618,6 +618,7 @@ newuoa_restart(newuoa_context* ctx)
     return NEWUOA_BAD_ADDRESS;
   }
   ctx->nevals = 0;
+  ctx->rho = 0; /* not yet started */
   ctx->status = NEWUOA_ITERATE;
   return ctx->status;
 }
@@ -1008,6 +1009,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   rhosq = rhobeg*rhobeg;
   recip = one/rhosq;
   reciq = SQRT(half)/rhosq;
+  rho = rhobeg;
   nf = 0;
  L50:
   nfm = nf;
-- 
2.43.0


From 6f953e8c96a16642b70571cb146737cf730b0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 21/24] fix: cobyla must print nothing when iprint is 0

---
 src/cobyla.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 0c11597..39927ab 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -528,8 +528,10 @@ cobyla_optimize(INTEGER n, INTEGER m,
  call_calcfc:
   if (nfvals >= maxfun && nfvals > 0) {
     status = COBYLA_TOO_MANY_EVALUATIONS;
-    fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
-            cobyla_reason(status));
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
+    }
     goto L_600;
   }
 #ifdef COBYLA_REVCOM_
-- 
2.43.0


From 606440171c90c0041968fc6f37b25bc5d0d645fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 22/24] fix: newuoa_create must reject N < 2 and set errno when
 NPT is invalid

---
 src/newuoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 40bd7c7..1db684c 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,7 +532,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
       print_error("invalid number of variables N");
     }
@@ -543,6 +543,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
   if (rhoend <= 0 || rhoend > rhobeg) {
-- 
2.43.0


From 90711fc45662c2863f4fecb07cf6cd490d095d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 23/24] fix: newuoa must return the best point when MAXFUN is
 less than NPT

---
 src/newuoa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index 1db684c..4b72b80 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1313,6 +1313,12 @@ newuoa_optimize(INTEGER n, INTEGER npt,
  L310:
   if (nf > MAX(maxfun,1)) {
     --nf;
+    if (nf < npt) {
+      /* The initial model is not complete: XOPT has not yet been set. */
+      LOOP(i,n) {
+        XOPT(i) = XPT(kopt,i);
+      }
+    }
     reason = "CALFUN has been called MAXFUN times";
     status = NEWUOA_TOO_MANY_EVALUATIONS;
     goto done;
-- 
2.43.0


From 00f4f81a2186296347132b43e9a1e6df1d08f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:48 +0000
Subject: [PATCH 24/24] fix: cobyla, newuoa and bobyqa must reject NaN trust
 region radii

---
 src/bobyqa.c | 2 +-
 src/cobyla.c | 4 ++--
 src/newuoa.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index c7a6f98..008232b 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -367,7 +367,7 @@ bobyqa_status bobyqa_optimize(
     }
     return BOBYQA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return BOBYQA_BAD_RHO_RANGE;
   }
 
diff --git a/src/cobyla.c b/src/cobyla.c
index 39927ab..63f70e1 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -208,7 +208,7 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
   size_t size, offset1, offset2;
 
   /* Check arguments. */
-  if (n < 1 || m < 0 || rhobeg < rhoend || rhoend <= 0 || maxfun < 1) {
+  if (n < 1 || m < 0 || !(rhoend > 0 && rhoend <= rhobeg) || maxfun < 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -425,7 +425,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   if (m < 0) {
     return COBYLA_BAD_NCONS;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return COBYLA_BAD_RHO_RANGE;
   }
 
diff --git a/src/newuoa.c b/src/newuoa.c
index 4b72b80..b70b3c7 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -546,7 +546,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     errno = EINVAL;
     return NULL;
   }
-  if (rhoend <= 0 || rhoend > rhobeg) {
+  if (!(rhoend > 0 && rhoend <= rhobeg)) {
     if (iprint > 0) {
       print_error("invalid RHOBEG and/or RHOEND");
     }
@@ -849,7 +849,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     }
     return NEWUOA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return NEWUOA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0

