/* With beta = 0 the destination needs not be set on input (bit-precise: its
   initial contents is any bit pattern, NaN included). */
#include "la.h"
int main(void)
{
  elt a[4] = {1,2,3,4}, b[4] = {1,1,1,1}, c[4];
  int i;
  for (i = 0; i < 4; ++i) c[i] = SYM();
#if OP == 0
  {
    static const long inc[] = {1, 2, -1};
    long iy = inc[vp_pick(0, 2)];
    int t = vp_flip();
    vp_check(F(gemv)(t ? OPK_BLAS_TRANS : OPK_BLAS_NO_TRANS, 2, 2, 1, a, 2, b, 1, 0, c, iy) == 0, "gemv");
    vp_check(c[iy == -1 ? 1 : 0] == (t ? 3 : 4), "initial contents ignored");
    vp_check(c[iy == 1 ? 1 : iy == 2 ? 2 : 0] == (t ? 7 : 6), "initial contents ignored");
  }
#elif OP == 1
  {
    int ta = vp_flip(), tb = vp_flip(), al = vp_flip();
    vp_check(F(gemm)(ta ? OPK_BLAS_TRANS : OPK_BLAS_NO_TRANS, tb ? OPK_BLAS_TRANS : OPK_BLAS_NO_TRANS,
                     2, 2, 2, al, a, 2, b, 2, 0, c, 2) == 0, "gemm");
    for (i = 0; i < 4; ++i) vp_check(c[i] == al*(i & 1 ? (ta ? 7 : 6) : (ta ? 3 : 4)), "initial contents ignored");
  }
#else
  {
    int ta = vp_flip(), up = vp_flip(), al = vp_flip();
    vp_check(F(syrk)(up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, ta ? OPK_BLAS_TRANS : OPK_BLAS_NO_TRANS, 2, 2, al, a, 2, 0, c, 2) == 0, "syrk");
    vp_check(c[0] == al*(ta ? 5 : 10), "initial contents ignored");
    vp_check(c[up ? 2 : 1] == al*(ta ? 11 : 14), "initial contents ignored");
    vp_check(c[3] == al*(ta ? 25 : 20), "initial contents ignored");
  }
#endif
  vp_reach("end");
  return 0;
}
