/* Level 1 BLAS-like routines: results, strides (positive and negative),
   nothing else is touched. */
#include "la.h"
#define MAXN 13
static elt *x, *y;
static elt xo[40], yo[40];
static long n, ix, iy, nx, ny;
static long at(long i, long inc) { return (inc >= 0 ? i*inc : (i - n + 1)*inc); }
static long index_of(long j, long inc)
{
  long i;
  for (i = 0; i < n; ++i) if (at(i, inc) == j) return i;
  return -1;
}
static elt* array(long m, elt* copy)
{
  elt* p = malloc(m > 0 ? m*sizeof(elt) : 1);
  long j;
  for (j = 0; j < m; ++j) copy[j] = p[j] = sym1();
  return p;
}

int main(void)
{
  static const int ns[] = {-1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 2, 3};
  static const int incs[] = {1, 2, -1, -2, 3, 1};
  long i, j, q;
  int op = OP, unary;
  elt a, r = 0;
  double e = 0;
  n = ns[vp_pick(0, 11)];
  unary = (op >= 4);
  ix = incs[vp_pick(0, unary ? 1 : 3)];
  if (n >= 8 && ix != 1) n = (n & 1) + 2;
  iy = unary ? 1 : incs[vp_pick(0, n >= 8 ? 1 : 3)];
  q = n > 0 ? n : 0;
  nx = q*(ix < 0 ? -ix : ix);
  ny = unary ? 0 : q*(iy < 0 ? -iy : iy);
  x = array(nx, xo);
  y = array(ny, yo);
  a = sym1();
#if OP == 0
  F(swap)(n, x, ix, y, iy);
  for (j = 0; j < nx; ++j) { i = index_of(j, ix); vp_check_eq(x[j], i >= 0 ? yo[at(i, iy)] : xo[j], "swap"); }
  for (j = 0; j < ny; ++j) { i = index_of(j, iy); vp_check_eq(y[j], i >= 0 ? xo[at(i, ix)] : yo[j], "swap"); }
#elif OP == 1
  F(copy)(n, x, ix, y, iy);
  for (j = 0; j < nx; ++j) vp_check_eq(x[j], xo[j], "copy: source");
  for (j = 0; j < ny; ++j) { i = index_of(j, iy); vp_check_eq(y[j], i >= 0 ? xo[at(i, ix)] : yo[j], "copy: destination"); }
#elif OP == 2
  F(axpy)(n, a, x, ix, y, iy);
  for (j = 0; j < nx; ++j) vp_check_eq(x[j], xo[j], "axpy: source");
  for (j = 0; j < ny; ++j) { i = index_of(j, iy); vp_check_eq(y[j], i >= 0 ? a*xo[at(i, ix)] + yo[j] : yo[j], "axpy: destination"); }
#elif OP == 3
  r = F(dot)(n, x, ix, y, iy);
  for (i = 0; i < n; ++i) e += (double)xo[at(i, ix)]*yo[at(i, iy)];
  vp_check_eq(r, e, "dot");
#elif OP == 4
  F(scal)(n, a, x, ix);
  for (j = 0; j < nx; ++j) { i = index_of(j, ix); vp_check_eq(x[j], i >= 0 ? a*xo[j] : xo[j], "scal"); }
#elif OP == 5
  F(zero)(n, x, ix);
  for (j = 0; j < nx; ++j) { i = index_of(j, ix); vp_check_eq(x[j], i >= 0 ? 0 : xo[j], "zero"); }
#elif OP == 6
  r = F(asum)(n, x, ix);
  for (i = 0; i < n; ++i) e += fabs(xo[at(i, ix)]);
  vp_check_eq(r, e, "asum");
#elif OP == 7
  r = F(sum)(n, x, ix);
  for (i = 0; i < n; ++i) e += xo[at(i, ix)];
  vp_check_eq(r, e, "sum");
#elif OP == 8
  if (n > 5) { n = 5; }
  r = F(amax)(n, x, ix);
  for (i = 0; i < n; ++i) vp_check_le(fabs(xo[at(i, ix)]), r, "amax is an upper bound");
  if (n > 0) {
    int any = 0;
    for (i = 0; i < n; ++i) any |= (r == xo[at(i, ix)]) | (r == -xo[at(i, ix)]);
    vp_check(any, "amax is attained");
  } else vp_check(r == 0, "amax of nothing");
#elif OP == 9
  if (n > 5) { n = 5; }
  j = IAMAX(n, x, ix);
  if (n > 0) {
    vp_check((j >= 1) & (j <= n), "iamax in range");
    for (i = 0; i < n; ++i) {
      vp_check_le(fabs(xo[at(i, ix)]), fabs(xo[at(j - 1, ix)]), "iamax is the index of the maximum");
      if (i < j - 1) vp_check(fabs(xo[at(i, ix)]) < fabs(xo[at(j - 1, ix)]), "iamax is the first index");
    }
  } else vp_check(j == 0, "iamax of nothing");
#elif OP == 10
  if (n > 2) { n = 2; }
  for (i = 0; i < n; ++i) vp_assume((x[at(i, ix)] == 0) | (fabs(x[at(i, ix)]) >= 1e-3));
  r = F(nrm2)(n, x, ix);
  for (i = 0; i < n; ++i) e += (double)xo[at(i, ix)]*xo[at(i, ix)];
  vp_check_le(0, r, "nrm2");
  vp_check_eq((double)r*r, e, "nrm2");
#endif
#if OP >= 6
  for (j = 0; j < nx; ++j) vp_check_eq(x[j], xo[j], "operand unchanged");
#endif
  free(x);
  free(y);
  if (n > 0) vp_reach("nonempty"); else vp_reach("empty");
  return 0;
}
