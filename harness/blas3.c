/* Level 3 BLAS-like routines and Cholesky factorization.
   OP 0: gemm, 1: syrk, 2: potf2. */
#include "la.h"
#ifndef MAXN
# define MAXN 2
#endif
static elt* array(long m, elt* copy)
{
  elt* p = malloc(m > 0 ? m*sizeof(elt) : 1);
  long j;
  for (j = 0; j < m; ++j) copy[j] = p[j] = sym1();
  return p;
}
#define MAX1(n) ((n) < 1 ? 1 : (n))
static opk_blas_trans tr(int t) { return t == 0 ? OPK_BLAS_NO_TRANS : t == 1 ? OPK_BLAS_TRANS : OPK_BLAS_CONJ_TRANS; }

int main(void)
{
  elt ao[(MAXN+1)*MAXN], bo[(MAXN+1)*MAXN], co[(MAXN+1)*MAXN], *a, *b, *c, alpha = sym1(), beta = sym1();
  long m, n, k, lda, ldb, ldc, i, j, l;
  int ta, tb, up;
#if OP == 0
  m = vp_pick(0, MAXN);
  n = vp_pick(0, MAXN);
  k = vp_pick(0, MAXN);
  ta = (int)vp_pick(0, 2);
  tb = (int)vp_pick(0, 2);
  lda = MAX1(ta ? k : m) + vp_pick(0, 1);
  ldb = MAX1(tb ? n : k) + vp_pick(0, 1);
  ldc = MAX1(m) + vp_pick(0, 1);
  a = array(lda*(ta ? m : k), ao);
  b = array(ldb*(tb ? k : n), bo);
  c = array(ldc*n, co);
  vp_check(F(gemm)(tr(ta), tr(tb), m, n, k, alpha, a, lda, b, ldb, beta, c, ldc) == 0, "gemm: success");
  for (j = 0; j < n; ++j) for (i = 0; i < ldc; ++i) {
    double e = 0;
    if (i >= m) { vp_check_eq(c[i + ldc*j], co[i + ldc*j], "gemm: other elements untouched"); continue; }
    for (l = 0; l < k; ++l) e += ao[ta ? l + lda*i : i + lda*l]*bo[tb ? j + ldb*l : l + ldb*j];
    vp_check_eq(c[i + ldc*j], alpha*e + beta*co[i + ldc*j], "gemm: result");
  }
  for (j = 0; j < lda*(ta ? m : k); ++j) vp_check_eq(a[j], ao[j], "gemm: operands untouched");
  for (j = 0; j < ldb*(tb ? k : n); ++j) vp_check_eq(b[j], bo[j], "gemm: operands untouched");
#elif OP == 1
  n = vp_pick(0, MAXN);
  k = vp_pick(0, MAXN);
  ta = (int)vp_pick(0, 2);
  up = vp_flip();
  lda = MAX1(ta ? k : n) + vp_pick(0, 1);
  ldc = MAX1(n) + vp_pick(0, 1);
  a = array(lda*(ta ? n : k), ao);
  c = array(ldc*n, co);
  vp_check(F(syrk)(up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, tr(ta), n, k, alpha, a, lda, beta, c, ldc) == 0, "syrk: success");
  for (j = 0; j < n; ++j) for (i = 0; i < ldc; ++i) {
    double e = 0;
    if (i >= n || (up ? i > j : i < j)) { vp_check_eq(c[i + ldc*j], co[i + ldc*j], "syrk: other elements untouched"); continue; }
    for (l = 0; l < k; ++l) e += ao[ta ? l + lda*i : i + lda*l]*ao[ta ? l + lda*j : j + lda*l];
    vp_check_eq(c[i + ldc*j], alpha*e + beta*co[i + ldc*j], "syrk: result");
  }
  for (j = 0; j < lda*(ta ? n : k); ++j) vp_check_eq(a[j], ao[j], "syrk: operand untouched");
#else
  opk_index st;
  n = vp_pick(0, MAXN);
  up = vp_flip();
  lda = MAX1(n) + vp_pick(0, 1);
  a = array(lda*n, ao);
  st = F(potf2)(up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, n, a, lda);
# define AIJ(p, i, j) p[up ? ((i) <= (j) ? (i) + lda*(j) : (j) + lda*(i)) : ((i) >= (j) ? (i) + lda*(j) : (j) + lda*(i))]
# define U(i, j) a[up ? (i) + lda*(j) : (j) + lda*(i)]
  vp_check((st >= 0) & (st <= n), "potf2: status");
  {
    double d1 = n > 0 ? AIJ(ao, 0, 0) : 1;
    double d2 = n > 1 ? AIJ(ao, 0, 0)*AIJ(ao, 1, 1) - AIJ(ao, 0, 1)*AIJ(ao, 0, 1) : 1;
    vp_check((st != 1) | (d1 <= 0), "potf2: first minor");
    vp_check((st != 2) | ((d1 > 0) & (d2 <= 0)), "potf2: second minor");
    if (st == 0 && n > 0) {
      vp_check(d1 > 0, "potf2: positive definite");
      if (n > 1) vp_check(d2 > 0, "potf2: positive definite");
    }
  }
  if (st == 0) {
    for (i = 0; i < n; ++i) {
      vp_check(U(i, i) > 0, "potf2: positive diagonal");
      for (j = i; j < n; ++j) {
        double e = 0;
        for (l = 0; l <= i; ++l) e += (double)U(l, i)*U(l, j);
        vp_check_eq(e, AIJ(ao, i, j), "potf2: factorization");
      }
    }
    if (n > 1) vp_reach("definite");
  } else vp_reach("not definite");
  for (j = 0; j < n; ++j) for (i = 0; i < lda; ++i) {
    if (i >= n || (up ? i > j : i < j)) vp_check_eq(a[i + lda*j], ao[i + lda*j], "potf2: other elements untouched");
  }
#endif
  vp_reach("end");
  return 0;
}
