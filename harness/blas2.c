/* Level 2 BLAS-like routines.  OP 0: gemv, 1: trmv, 2: trsv. */
#include "la.h"
#ifndef MAXN
# define MAXN 3
#endif
static long at(long i, long n, long inc) { return (inc >= 0 ? i*inc : (i - n + 1)*inc); }
static long len(long n, long inc) { return n > 0 ? 1 + (n - 1)*(inc < 0 ? -inc : inc) : 0; }
static elt* array(long m, elt* copy)
{
  elt* p = malloc(m > 0 ? m*sizeof(elt) : 1);
  long j;
  for (j = 0; j < m; ++j) copy[j] = p[j] = sym1();
  return p;
}
static const long incs[] = {1, 2, -1, -2};

#if OP == 0
int main(void)
{
  elt a0[(MAXN+1)*MAXN], xo[2*MAXN], yo[2*MAXN], *a, *x, *y, alpha = sym1(), beta = sym1();
  long m, n, lda, ix, iy, i, j, nx, ny;
  int t, st;
  t = (int)vp_pick(0, 2);
  m = vp_pick(0, MAXN);
  n = vp_pick(0, MAXN);
  lda = (m < 1 ? 1 : m) + vp_pick(0, 1);
  ix = incs[vp_pick(0, 3)];
  iy = incs[vp_pick(0, 3)];
  nx = (t ? m : n);
  ny = (t ? n : m);
  a = array(lda*n, a0);
  x = array(len(nx, ix), xo);
  y = array(len(ny, iy), yo);
  st = F(gemv)(t == 0 ? OPK_BLAS_NO_TRANS : t == 1 ? OPK_BLAS_TRANS : OPK_BLAS_CONJ_TRANS,
               m, n, alpha, a, lda, x, ix, beta, y, iy);
  vp_check(st == 0, "gemv: success");
  for (i = 0; i < ny; ++i) {
    double e = 0;
    for (j = 0; j < nx; ++j) e += a0[t ? j + i*lda : i + j*lda]*xo[at(j, nx, ix)];
    if (n > 0 && m > 0) e = beta*yo[at(i, ny, iy)] + alpha*e; else e = yo[at(i, ny, iy)];
    vp_check_eq(y[at(i, ny, iy)], e, "gemv: result");
  }
  for (j = 0; j < len(ny, iy); ++j) {
    if (j % (iy < 0 ? -iy : iy) != 0) vp_check_eq(y[j], yo[j], "gemv: other elements untouched");
  }
  for (j = 0; j < len(nx, ix); ++j) vp_check_eq(x[j], xo[j], "gemv: operand untouched");
  for (j = 0; j < lda*n; ++j) vp_check_eq(a[j], a0[j], "gemv: matrix untouched");
  vp_reach("end");
  return 0;
}
#else
int main(void)
{
  elt a0[(MAXN+1)*MAXN], xo[2*MAXN], *a, *x;
  long n, lda, ix, i, j;
  int t, up, unit, st;
  t = (int)vp_pick(0, 2);
  up = (int)vp_pick(0, 1);
  unit = (int)vp_pick(0, 1);
  n = vp_pick(0, MAXN);
  lda = (n < 1 ? 1 : n) + vp_pick(0, 1);
  ix = incs[vp_pick(0, 3)];
  a = array(lda*n, a0);
  x = array(len(n, ix), xo);
#if OP == 2
  for (i = 0; i < n; ++i) vp_assume((a0[i + i*lda] >= 0.5) | (a0[i + i*lda] <= -0.5));
  st = F(trsv)
#else
  st = F(trmv)
#endif
    (up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER,
     t == 0 ? OPK_BLAS_NO_TRANS : t == 1 ? OPK_BLAS_TRANS : OPK_BLAS_CONJ_TRANS,
     unit ? OPK_BLAS_UNIT : OPK_BLAS_NON_UNIT, n, a, lda, x, ix);
  vp_check(st == 0, "success");
  for (i = 0; i < n; ++i) {
    double e = 0;
    for (j = 0; j < n; ++j) {
      long r = t ? j : i, c = t ? i : j;
      elt f = (r == c && unit ? 1 : (up ? r <= c : r >= c) ? a0[r + c*lda] : 0);
      e += f*(OP == 2 ? x[at(j, n, ix)] : xo[at(j, n, ix)]);
    }
    vp_check_eq(OP == 2 ? xo[at(i, n, ix)] : x[at(i, n, ix)], e, OP == 2 ? "solution of the system" : "product");
  }
  for (j = 0; j < len(n, ix); ++j) {
    if (j % (ix < 0 ? -ix : ix) != 0) vp_check_eq(x[j], xo[j], "other elements untouched");
  }
  for (j = 0; j < lda*n; ++j) vp_check_eq(a[j], a0[j], "matrix untouched");
  vp_reach("end");
  return 0;
}
#endif
