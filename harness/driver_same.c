/* The simple driver yields the same history as the optimizer it drives. */
#include "optim.h"
#ifndef N
# define N 2
#endif
#ifndef CALLS
# define CALLS 6
#endif
/* line search with arbitrary outcomes, the same for both optimizers */
static int outcome[2*CALLS], nout, next_[2];
typedef struct { opk_lnsrch base; int who; } both;
static opk_lnsrch_task b_start(opk_lnsrch* l) { return a_end(l, OPK_LNSRCH_SEARCH); }
static opk_lnsrch_task b_iterate(opk_lnsrch* l, double* stp, double f, double df)
{
  int* n = &next_[((both*)l)->who];
  (void)f; (void)df;
  if (*n == nout) outcome[nout++] = (int)vp_pick(0, 3);
  switch (outcome[(*n)++]) {
  case 0: *stp = *stp/2; return a_end(l, OPK_LNSRCH_SEARCH);
  case 1: return a_end(l, OPK_LNSRCH_CONVERGENCE);
  case 2: l->task = OPK_LNSRCH_WARNING; l->status = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS; return l->task;
  default: l->task = OPK_LNSRCH_ERROR; l->status = OPK_NOT_A_DESCENT; return l->task;
  }
}
static opk_lnsrch_operations b_ops = { NULL, b_start, b_iterate, OPK_TRUE };
static opk_lnsrch* both_lnsrch(int who) { opk_lnsrch* l = opk_allocate_line_search(&b_ops, sizeof(both)); ((both*)l)->who = who; return l; }

int main(void)
{
  static const elt grads[4][2] = { { 3, 4 }, { -0.75, 1 }, { 1, 0 }, { -3, -4 } };
  opk_vspace* s = NEWSPACE(N);
  opk_lnsrch *l1, *l2;
  optimizer* opt;
  opk_optimizer* drv;
  options o;
  opk_vector *vx, *vg;
  elt xb[2][N], gb[2][N], *x, *dx, *dg;
  elt lo[N], hi[N];
  double f;
  opk_task t1, t2;
  int given, i, k, dl = 0, du = 0;
  char b1[64], b2[64];
  opk_convexset* box = NULL;
  opk_bound_type stat = ELTYPE == OPK_FLOAT ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE, vol = ELTYPE == OPK_FLOAT ? OPK_BOUND_VOLATILE_FLOAT : OPK_BOUND_VOLATILE_DOUBLE;
  for (i = 0; i < N; ++i) { lo[i] = 0; hi[i] = 1 + i; }
  DEFAULTS(&o);
  o.stpmin = 0.015625; o.stpmax = 1024; o.grtol = 0; o.gatol = 0;
  given = vp_flip();
  if (!given) { l1 = l2 = NULL; vp_reach("default line search"); } else { l1 = both_lnsrch(0); l2 = both_lnsrch(1); }
#if OPT >= 2
  dl = (int)vp_pick(0, 2); du = (int)vp_pick(0, 2);
  if (!dl && !du) return 0;
  box = opk_new_boxset(s, dl ? vol : OPK_BOUND_NONE, dl ? lo : NULL, du ? vol : OPK_BOUND_NONE, du ? hi : NULL);
#endif
  opt = make_optimizer(&o, s, l1, box);
  drv = opk_new_optimizer(OPT == 0 ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, &o, ELTYPE, N,
                          dl == 0 ? OPK_BOUND_NONE : dl == 1 ? stat : vol, dl ? lo : NULL,
                          du == 0 ? OPK_BOUND_NONE : du == 1 ? stat : vol, du ? hi : NULL, l2);
  vp_check(opt != NULL && drv != NULL, "created");
  OPK_DROP(l2); OPK_DROP(box);
  if (dl == 2) for (i = 0; i < N; ++i) lo[i] = 77;
  if (du == 2) for (i = 0; i < N; ++i) hi[i] = -77;
  opk_get_name(b1, sizeof(b1), drv);
#if OPT == 0
  opk_get_nlcg_name(b2, sizeof(b2), opt);
#else
  strcpy(b2, opk_get_vmlmb_method_name(opt));
#endif
  vp_check(strcmp(b1, b2) == 0, "name");
  vx = opk_vcreate(s); vg = opk_vcreate(s);
  x = DATA(vx);
  dx = xb[0]; dg = gb[0];
  for (i = 0; i < N; ++i) { x[i] = dx[i] = i ? 0.25 : 2; }
  t1 = START(opt, vx); t2 = opk_start(drv, dx);
  for (k = 0; k < (given ? CALLS : OPT < 2 ? 3 : 5); ++k) {
    vp_check(t1 == t2, "task");
    vp_check(opk_get_task(drv) == t1 && GET(task) == t1, "task");
    vp_check(opk_get_status(drv) == GET(status), "status");
    vp_check(opk_get_evaluations(drv) == GET(evaluations), "evaluations");
    vp_check(opk_get_iterations(drv) == GET(iterations), "iterations");
    vp_check(opk_get_restarts(drv) == GET(restarts), "restarts");
    vp_check_eq(opk_get_step(drv), GET(step), "step");
    if (GET(evaluations) > 0) vp_check_eq(opk_get_gnorm(drv), GET(gnorm), "gradient norm");
    for (i = 0; i < N; ++i) vp_check_eq(dx[i], x[i], "variables");
    if (t1 == OPK_TASK_COMPUTE_FG) {
      int q = k == 0 ? 0 : (int)vp_pick(1, 3);
      for (i = 0; i < N; ++i) DATA(vg)[i] = dg[i] = grads[q][i];
      f = k == 0 ? 4 : given ? vp_dbl_in(-10, 10) : 4 - 2*(double)vp_pick(0, 1)*k;
      if (k > 2) vp_reach("trial");
    }
    /* other arrays */
    if (k == 2) {
      memcpy(xb[1], dx, sizeof(xb[1])); memcpy(gb[1], dg, sizeof(gb[1]));
      for (i = 0; i < N; ++i) { dx[i] = -99; dg[i] = -99; }
      dx = xb[1]; dg = gb[1];
    }
    t1 = ITERATE(opt, vx, f, vg);
    t2 = opk_iterate(drv, dx, f, dg);
    for (i = 0; i < N; ++i) vp_check(dg[i] == DATA(vg)[i], "gradient");
  }
  opk_destroy_optimizer(drv);
  for (i = 0; i < N; ++i) vp_check_eq(dx[i], x[i], "variables");
  OPK_DROP(opt); OPK_DROP(vx); OPK_DROP(vg); OPK_DROP(s); OPK_DROP(l1);
  vp_check(vp_live() == 0, "nothing leaks");
  return 0;
}
