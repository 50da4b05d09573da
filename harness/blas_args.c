/* Argument checking of the BLAS-like routines: a non-zero result is the number
   of an invalid argument, nothing is modified then, and any invalid argument
   is reported. */
#include "la.h"
static elt a[16], b[16], c[16];
static int ok_trans(int t) { return (t == OPK_BLAS_NO_TRANS) | (t == OPK_BLAS_TRANS) | (t == OPK_BLAS_CONJ_TRANS); }
static int ok_uplo(int u) { return (u == OPK_BLAS_UPPER) | (u == OPK_BLAS_LOWER); }
static int ok_diag(int u) { return (u == OPK_BLAS_UNIT) | (u == OPK_BLAS_NON_UNIT); }
#define NEED(k, cond) bad[k] = !(cond)
int main(void)
{
  int bad[16], k, any = 0, st, i;
  int t1 = vp_int(), t2 = vp_int(), u = vp_int(), dg = vp_int();
  long m, n, p, lda, ldb, ldc, ix, iy;
  for (k = 0; k < 16; ++k) { bad[k] = 0; a[k] = 1; b[k] = 2; c[k] = 3; }
  /* any dimension when invalid, small ones when valid */
  m = vp_long(); n = vp_long(); p = vp_long(); lda = vp_long(); ldb = vp_long(); ldc = vp_long();
  ix = vp_long(); iy = vp_long();
  vp_assume((m <= 2) & (n <= 2) & (p <= 2) & (lda <= 3) & (ldb <= 3) & (ldc <= 3));
  vp_assume((ix >= -2) & (ix <= 2) & (iy >= -2) & (iy <= 2));
#if OP == 0
  NEED(1, ok_trans(t1)); NEED(2, m >= 0); NEED(3, n >= 0);
  NEED(6, (lda >= m) & (lda >= 1)); NEED(8, ix != 0); NEED(11, iy != 0);
  for (k = 0; k < 16; ++k) any |= bad[k];
  vp_assume(any);
  st = F(gemv)((opk_blas_trans)t1, m, n, 2, a, lda, b, ix, 3, c, iy);
#elif OP == 1 || OP == 2
  NEED(1, ok_uplo(u)); NEED(2, ok_trans(t1)); NEED(3, ok_diag(dg)); NEED(4, n >= 0);
  NEED(6, (lda >= n) & (lda >= 1)); NEED(8, ix != 0);
  for (k = 0; k < 16; ++k) any |= bad[k];
  vp_assume(any);
# if OP == 1
  st = F(trmv)
# else
  st = F(trsv)
# endif
    ((opk_blas_uplo)u, (opk_blas_trans)t1, (opk_blas_diag)dg, n, a, lda, b, ix);
#elif OP == 3
  NEED(1, ok_trans(t1)); NEED(2, ok_trans(t2)); NEED(3, m >= 0); NEED(4, n >= 0); NEED(5, p >= 0);
  NEED(8, (lda >= 1) & (lda >= (t1 == OPK_BLAS_NO_TRANS ? m : p)));
  NEED(10, (ldb >= 1) & (ldb >= (t2 == OPK_BLAS_NO_TRANS ? p : n)));
  NEED(13, (ldc >= 1) & (ldc >= m));
  for (k = 0; k < 16; ++k) any |= bad[k];
  vp_assume(any);
  st = F(gemm)((opk_blas_trans)t1, (opk_blas_trans)t2, m, n, p, 2, a, lda, b, ldb, 3, c, ldc);
#elif OP == 4
  NEED(1, ok_uplo(u)); NEED(2, ok_trans(t1)); NEED(3, n >= 0); NEED(4, p >= 0);
  NEED(7, (lda >= 1) & (lda >= (t1 == OPK_BLAS_NO_TRANS ? n : p)));
  NEED(10, (ldc >= 1) & (ldc >= n));
  for (k = 0; k < 16; ++k) any |= bad[k];
  vp_assume(any);
  st = F(syrk)((opk_blas_uplo)u, (opk_blas_trans)t1, n, p, 2, a, lda, 3, c, ldc);
#else
  NEED(1, ok_uplo(u) | (n == 0)); NEED(2, n >= 0); NEED(4, (lda >= 1) & (lda >= n));
  for (k = 0; k < 16; ++k) any |= bad[k];
  vp_assume(any);
  st = -(int)F(potf2)((opk_blas_uplo)u, n, a, lda);
#endif
  vp_check((st >= 1) & (st <= 13), "invalid arguments are reported");
  for (k = 1; k < 14; ++k) vp_check((st != k) | bad[k], "the reported argument is invalid");
  for (k = 0; k < 16; ++k) vp_check(a[k] == 1 && b[k] == 2 && c[k] == 3, "nothing is modified");
  vp_reach("end");
  return 0;
}
