/* Convergence tests of the optimizers: norm of the (projected) gradient. */
#include "optim.h"
#define N 2

/* squared norm of the gradient along which the variables can move */
static double pgrad2(const elt* x, const elt* g)
{
  double t = 0;
  int i;
  for (i = 0; i < N; ++i) {
#if OPT >= 2
    if ((x[i] == 0 && g[i] >= 0) || (x[i] == 1 && g[i] <= 0)) continue;
#endif
    t += (double)g[i]*g[i];
  }
  return t;
}

int main(void)
{
  static const double start[3] = { 0, 0.5, 1 };
  static const double grads[4][2] = { { 3, 4 }, { -0.75, 1 }, { 0, 0 }, { 5, -12 } };
  opk_vspace* s = NEWSPACE(N);
  opk_lnsrch* ls = accept_lnsrch();
  opk_convexset* box = NULL;
  optimizer* opt;
  options o;
  opk_vector *x, *g;
  opk_task t;
  double t2, gtest, ginit2;
  int i, q;
#if OPT >= 2
  { double lo = 0, hi = 1; box = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &hi); }
#endif
  DEFAULTS(&o);
  o.gatol = vp_flip() ? 0 : vp_dbl_in(0, 100);
  o.grtol = vp_flip() ? 0 : vp_flip() ? 0.25 : 2;
#if OPT > 0
  o.save_memory = vp_flip();
#endif
  o.stpmin = 0; o.stpmax = 1024;
  opt = make_optimizer(&o, s, ls, box);
  vp_check(opt != NULL, "created");
  x = opk_vcreate(s); g = opk_vcreate(s);
  DATA(x)[0] = start[vp_pick(0, 2)]; DATA(x)[1] = start[vp_pick(0, 1)];
  t = START(opt, x);
  vp_check(t == OPK_TASK_COMPUTE_FG, "started");
#ifdef SECOND
  q = (int)vp_pick(0, 3);
  for (i = 0; i < N; ++i) DATA(g)[i] = grads[q][i];
  ginit2 = pgrad2(DATA(x), DATA(g));
  t = ITERATE(opt, x, 1, g);
  if (GET(gnorm) == 0) { vp_check(t == OPK_TASK_FINAL_X, "stationary point"); return 0; }
  t = ITERATE(opt, x, 1, g);
  if (t != OPK_TASK_COMPUTE_FG) return 0;
  for (i = 0; i < N; ++i) DATA(g)[i] = SYM();
#else
  (void)grads; (void)q;
  for (i = 0; i < N; ++i) DATA(g)[i] = SYM();
  ginit2 = pgrad2(DATA(x), DATA(g));
#endif
  t2 = pgrad2(DATA(x), DATA(g));
  t = ITERATE(opt, x, 1, g);
  vp_check(GET(gnorm) >= 0, "norm is nonnegative");
  vp_check_eq(GET(gnorm)*GET(gnorm), t2, "norm of the projected gradient");
  vp_check((t == OPK_TASK_FINAL_X) | (t == OPK_TASK_NEW_X), "new iterate");
  gtest = o.grtol*sqrt(ginit2);
  if (!(gtest >= o.gatol)) gtest = o.gatol;
  vp_check((t == OPK_TASK_FINAL_X) == (sqrt(t2) <= gtest), "convergence test");
  if (t == OPK_TASK_FINAL_X) { if (gtest > 0) vp_reach("converged"); else vp_reach("stationary"); }
  else vp_reach("not converged");
  return 0;
}
