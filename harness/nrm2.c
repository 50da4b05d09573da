/* The Euclidean norm neither overflows nor underflows (bit-precise). */
#include "la.h"
int main(void)
{
  elt x[1], r, a;
  x[0] = SYM();
#ifdef FLT
  vp_assume((x[0] >= -FLT_MAX) & (x[0] <= FLT_MAX));
#else
  vp_assume((x[0] >= -DBL_MAX) & (x[0] <= DBL_MAX));
#endif
  a = (x[0] < 0 ? -x[0] : x[0]);
  r = F(nrm2)(1, x, 1);
  vp_check((r >= a*(elt)0.99) & (r <= a || r*(elt)0.99 <= a), "norm of a one-element vector is its absolute value");
  vp_reach("end");
  return 0;
}
