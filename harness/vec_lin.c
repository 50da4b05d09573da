/* Elementwise operations of the built-in vector spaces: the result is the
   documented linear combination (in any of the aliasing configurations
   documented), the operands are left unchanged. */
#include "optimpack.h"
#include "vp.h"

#ifndef N
# define N 3
#endif
#ifdef FLT
typedef float elt;
# define NEWSPACE opk_new_simple_float_vector_space
# define DATA     opk_get_simple_float_vector_data
# define SYM()    vp_float()
#else
typedef double elt;
# define NEWSPACE opk_new_simple_double_vector_space
# define DATA     opk_get_simple_double_vector_data
# define SYM()    vp_double()
#endif

int main(void)
{
  opk_vspace* s = NEWSPACE(N);
  opk_vector* v[4];
  elt* p[4];
  elt o[4][N];
  int i, k, op, d, q;
  double a, b, c;
  for (k = 0; k < 4; ++k) {
    v[k] = opk_vcreate(s);
    p[k] = DATA(v[k]);
    for (i = 0; i < N; ++i) {
      p[k][i] = o[k][i] = SYM();
    }
  }
  a = vp_double();
  b = vp_double();
  c = vp_double();
  op = (int)vp_pick(0, 9);
  d = (int)vp_pick(0, 3); /* destination, 1..3 = aliased with x, y or z */
  switch (op) {
  case 0: opk_vzero(v[d]); break;
  case 1: opk_vfill(v[d], a); break;
  case 2: opk_vcopy(v[d], v[1]); break;
  case 3: opk_vscale(v[d], a, v[1]); break;
  case 4: opk_vproduct(v[d], v[1], v[2]); break;
  case 5: opk_vaxpby(v[d], a, v[1], b, v[2]); break;
  case 6: opk_vaxpbypcz(v[d], a, v[1], b, v[2], c, v[3]); break;
  case 7: opk_vaxpby(v[d], a, v[1], b, v[1]); break;
  case 8: opk_vaxpbypcz(v[d], a, v[1], b, v[2], c, v[1]); break;
  case 9: opk_vswap(v[d], v[1]); break;
  }
  for (q = 0; q < N; ++q) {
    double x = o[1][q], y = o[2][q], z = o[3][q], e;
    switch (op) {
    case 0: e = 0; break;
    case 1: e = a; break;
    case 2: e = x; break;
    case 3: e = a*x; break;
    case 4: e = x*y; break;
    case 5: e = a*x + b*y; break;
    case 6: e = a*x + b*y + c*z; break;
    case 7: e = a*x + b*x; break;
    case 8: e = a*x + b*y + c*x; break;
    default: e = x;
    }
    vp_check_eq(p[d][q], (elt)e, "result of a vector operation");
    for (i = 0; i < 4; ++i) {
      if (i != d) {
        vp_check_eq(p[i][q], (op == 9 && i == 1 ? o[d][q] : o[i][q]),
                    "other vectors are left unchanged");
      }
    }
  }
  vp_reach("end");
  return 0;
}
