/* Every point at which the bounded optimizers ask for the objective function
   is within the bounds (bit-precise arithmetic, driver interface). */
#include "space.h"
#ifndef N
# define N 1
#endif
#ifndef CALLS
# define CALLS 3
#endif

int main(void)
{
  int kl = (int)vp_pick(0, 2), ku = (int)vp_pick(0, 2), i, k; /* none, scalar, array */
  double slo = 0, shi = 0;
  elt vlo[N], vhi[N], lo[N], hi[N], x[N], g[N];
  opk_vmlmb_options o;
  opk_optimizer* opt;
  opk_task t;
  if (kl == 0 && ku == 0) return 0;
  if (kl == 1 && ku == 1) return 0;
  opk_get_vmlmb_default_options(&o);
  o.mem = 1;
  o.blmvm = BLMVM;
  if (kl == 1) { slo = vp_finite(); vp_assume((elt)slo >= -ELMAX & (elt)slo <= ELMAX); }
  if (ku == 1) { shi = vp_finite(); vp_assume((elt)shi >= -ELMAX & (elt)shi <= ELMAX); }
  for (i = 0; i < N; ++i) {
    vlo[i] = kl == 2 ? SYM() : 0; vhi[i] = ku == 2 ? SYM() : 0;
    lo[i] = kl == 0 ? -ELMAX : kl == 1 ? (elt)slo : vlo[i];
    hi[i] = ku == 0 ? ELMAX : ku == 1 ? (elt)shi : vhi[i];
    vp_assume((lo[i] <= hi[i]));
    x[i] = SYM();
    vp_assume((x[i] >= -ELMAX) & (x[i] <= ELMAX));
  }
  opt = opk_new_optimizer(OPK_ALGORITHM_VMLMB, &o, ELTYPE, N,
                          kl == 0 ? OPK_BOUND_NONE : kl == 1 ? OPK_BOUND_SCALAR_DOUBLE : ELTYPE == OPK_FLOAT ? OPK_BOUND_VOLATILE_FLOAT : OPK_BOUND_VOLATILE_DOUBLE,
                          kl == 0 ? NULL : kl == 1 ? (void*)&slo : (void*)vlo,
                          ku == 0 ? OPK_BOUND_NONE : ku == 1 ? OPK_BOUND_SCALAR_DOUBLE : ELTYPE == OPK_FLOAT ? OPK_BOUND_VOLATILE_FLOAT : OPK_BOUND_VOLATILE_DOUBLE,
                          ku == 0 ? NULL : ku == 1 ? (void*)&shi : (void*)vhi, NULL);
  vp_check(opt != NULL, "optimizer created");
  t = opk_start(opt, x);
  for (k = 0; t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X; ++k) {
    static double f;
    if (t == OPK_TASK_COMPUTE_FG) {
      for (i = 0; i < N; ++i)
        vp_check((x[i] >= lo[i]) & (x[i] <= hi[i]), "variables are within their bounds");
      if (k == 0) vp_reach("start"); else vp_reach("trial");
    }
    if (k >= CALLS) break;
    if (t == OPK_TASK_COMPUTE_FG) {
      /* exact scalings: rounding only comes from the additions */
      static const elt grad[4] = { 1, -1, 0, 0 };
      f = k == 0 ? 0.5 : (double)vp_pick(0, 1)*100;
      for (i = 0; i < N; ++i) g[i] = grad[vp_pick(0, 2)];
    }
    t = opk_iterate(opt, x, f, g);
  }
  return 0;
}
