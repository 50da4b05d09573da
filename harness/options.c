/* Options and constructors of the optimizers (OPT 0: NLCG, 1: others). */
#include "optim.h"

static int fin(double v) { return (v >= -DBL_MAX) & (v <= DBL_MAX); }

int main(void)
{
  options o, d;
  opk_vspace *s = NEWSPACE(3), *s2 = NEWSPACE(3);
  optimizer* opt;
  opk_convexset* box = NULL;
  int ok, meth = 0, sp, k;
  opk_status st;
  memset(&d, 0, sizeof(d));
  DEFAULTS(&d);
  DEFAULTS(NULL);
#if OPT == 0
  vp_check(opk_check_nlcg_options(NULL) == OPK_ILLEGAL_ADDRESS, "address");
  vp_check(opk_check_nlcg_options(&d) == OPK_SUCCESS, "default options are valid");
  vp_check(d.flags == OPK_NLCG_DEFAULT && !d.fmin_given, "default options");
#else
  vp_check(opk_check_vmlmb_options(NULL) == OPK_ILLEGAL_ADDRESS, "address");
  vp_check(opk_check_vmlmb_options(&d) == OPK_SUCCESS, "default options are valid");
  vp_check(d.mem >= 1 && !d.blmvm, "default options");
#endif
  vp_check(d.gatol == 0 && d.grtol > 0 && d.grtol < 1e-2 && d.epsilon >= 0 && d.delta > 0 && d.stpmin >= 0 && d.stpmax > 1, "default options");
  o = d;
  o.delta = vp_double(); o.epsilon = vp_double(); o.grtol = vp_double(); o.gatol = vp_double();
  o.stpmin = vp_double(); o.stpmax = vp_double();
  ok = fin(o.delta) & (o.delta > 0) & fin(o.epsilon) & (o.epsilon >= 0) & (o.epsilon < 1)
    & fin(o.grtol) & (o.grtol >= 0) & fin(o.gatol) & (o.gatol >= 0) & fin(o.stpmin) & (o.stpmin >= 0) & fin(o.stpmax) & (o.stpmax > o.stpmin);
#if OPT == 0
  o.fmin = vp_double(); o.fmin_given = vp_flip();
  if (o.fmin_given) ok = ok & fin(o.fmin);
  k = (int)vp_pick(0, 10);
  o.flags = (k < 10 ? k : 255) | (vp_flip() ? OPK_NLCG_POWELL : 0);
  meth = o.flags == 0 || (k >= 1 && k <= 8);
  st = opk_check_nlcg_options(&o);
#else
  o.mem = vp_long();
  vp_assume(o.mem <= 5);
  ok = ok & (o.mem >= 1);
  o.blmvm = vp_flip(); o.save_memory = vp_flip();
  meth = 1;
  st = opk_check_vmlmb_options(&o);
  k = (int)vp_pick(0, 2);
  if (k > 0) { double lo = 0; box = opk_new_boxset(k == 1 ? s : s2, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_NONE, NULL); if (k == 2) meth = 0; }
#endif
  vp_check((st == OPK_SUCCESS) == ok, "options are valid exactly in the documented ranges");
  vp_check((st == OPK_SUCCESS) | (st == OPK_INVALID_ARGUMENT), "status");
  sp = vp_flip();
  errno = 0;
  opt = make_optimizer(&o, sp ? s : NULL, NULL, box);
  if (!ok) {
    vp_check(opt == NULL && errno == EINVAL, "invalid options");
    vp_reach("invalid options");
  } else if (!sp) {
    vp_check(opt == NULL && errno == EFAULT, "no space");
    vp_reach("no space");
  } else if (!meth) {
    vp_check(opt == NULL && errno == EINVAL, "invalid method or set");
    vp_reach("invalid method or set");
  } else {
    vp_check(opt != NULL && errno == 0, "created");
    vp_check(GET(task) == OPK_TASK_ERROR && GET(status) == OPK_NOT_STARTED, "must be started");
    vp_check(GET(evaluations) == 0 && GET(iterations) == 0 && GET(restarts) == 0, "nothing counted");
#if OPT > 0
    vp_check(opk_get_vmlmb_method(opt) == (box == NULL ? OPK_LBFGS : o.blmvm ? OPK_BLMVM : OPK_VMLMB), "method");
    vp_check(opk_get_vmlmb_mp(opt) == 0 && opk_get_vmlmb_s(opt, 1) == NULL, "no memorized pairs");
#endif
    vp_reach("created");
  }
  OPK_DROP(opt); OPK_DROP(box);
  /* default options */
#if OPT == 0
  opt = opk_new_nlcg_optimizer(NULL, s, NULL);
#else
  opt = opk_new_vmlmb_optimizer(NULL, s, NULL, NULL);
#endif
  vp_check(opt != NULL, "default options");
  OPK_DROP(opt); OPK_DROP(s); OPK_DROP(s2);
  vp_check(vp_live() == 0, "nothing leaks");
  return 0;
}
