/* Inner products and norms of the built-in vector spaces. */
#include "space.h"
#ifndef N
# define N 3
#endif
int main(void)
{
  opk_vspace* s = NEWSPACE(N);
  opk_vector* v[3];
  elt* p[3];
  double o[3][N];
  double r, e = 0;
  int i, k, a, b;
  for (k = 0; k < 3; ++k) {
    v[k] = opk_vcreate(s);
    p[k] = DATA(v[k]);
    for (i = 0; i < N; ++i) {
      p[k][i] = SYM();
      vp_assume((p[k][i] >= -1e3f) & (p[k][i] <= 1e3f));
      o[k][i] = p[k][i];
    }
  }
  a = (int)vp_pick(0, 1); /* aliased operands */
  b = (int)vp_pick(0, 2);
  switch (vp_pick(0, 4)) {
  case 0:
    r = opk_vdot(v[0], v[a]);
    for (i = 0; i < N; ++i) e += o[0][i]*o[a][i];
    vp_check_eq(r, e, "inner product");
    break;
  case 1:
    r = opk_vdot3(v[0], v[a], v[b]);
    for (i = 0; i < N; ++i) e += o[0][i]*o[a][i]*o[b][i];
    vp_check_eq(r, e, "weighted inner product");
    break;
  case 2:
    r = opk_vnorm1(v[b]);
    for (i = 0; i < N; ++i) e += fabs(o[b][i]);
    vp_check_eq(r, e, "norm 1");
    break;
  case 3:
    r = opk_vnorm2(v[b]);
    for (i = 0; i < N; ++i) e += o[b][i]*o[b][i];
    vp_check_le(0, r, "norm 2 is nonnegative");
    vp_check_eq(r*r, e, "norm 2");
    break;
  default:
    r = opk_vnorminf(v[b]);
    for (i = 0; i < N; ++i) e = (fabs(o[b][i]) > e ? fabs(o[b][i]) : e);
    vp_check_eq(r, e, "infinite norm");
  }
  for (k = 0; k < 3; ++k)
    for (i = 0; i < N; ++i) vp_check_eq(p[k][i], o[k][i], "operands unchanged");
  vp_reach("end");
  return 0;
}
