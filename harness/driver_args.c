/* Arguments of the simple driver. */
#include "space.h"
int main(void)
{
  int alg = vp_int(), type = vp_int(), lt = vp_int(), ut = vp_int(), hl = vp_flip(), hu = vp_flip(), bad = 0, efault = 0, started;
  long n = vp_long();
  float fl[4] = { 0, 0, 0, 0 }, fu[4] = { 1, 1, 1, 1 };
  double dl[4] = { 0, 0, 0, 0 }, du[4] = { 1, 1, 1, 1 }, x[4] = { 5, 5, 5, 5 }, g[4] = { 0, 0, 0, 0 };
  void *lo, *up;
  char buf[64];
  opk_optimizer* opt;
  vp_assume(n <= 3);
  vp_assume((lt != OPK_BOUND_VECTOR) & (ut != OPK_BOUND_VECTOR));
  lo = !hl ? NULL : (lt == OPK_BOUND_SCALAR_FLOAT || lt == OPK_BOUND_STATIC_FLOAT || lt == OPK_BOUND_VOLATILE_FLOAT) ? (void*)fl : (void*)dl;
  up = !hu ? NULL : (ut == OPK_BOUND_SCALAR_FLOAT || ut == OPK_BOUND_STATIC_FLOAT || ut == OPK_BOUND_VOLATILE_FLOAT) ? (void*)fu : (void*)du;
  if (n < 1 || (type != OPK_FLOAT && type != OPK_DOUBLE)) bad = 1;
  if (lt < 0 || lt > 7 || ut < 0 || ut > 7) bad = 1;
  if (alg != OPK_ALGORITHM_NLCG && alg != OPK_ALGORITHM_VMLMB) bad = 1;
  if ((lt == 0) != !hl || (ut == 0) != !hu) efault = 1;
  if (alg == OPK_ALGORITHM_NLCG && (lt != 0 || ut != 0)) bad = 1;
  errno = 0;
  opt = opk_new_optimizer(alg, NULL, type, n, lt, lo, ut, up, NULL);
  if (bad || efault) {
    vp_check(opt == NULL, "rejected");
    vp_check(errno == EINVAL ? bad : errno == EFAULT ? efault : 0, "reason");
    if (bad) vp_reach("invalid argument"); else vp_reach("missing bound");
    vp_check(vp_live() == 0, "nothing leaks");
    return 0;
  }
  vp_check(opt != NULL && errno == 0, "created");
  vp_check(opk_get_task(opt) == OPK_TASK_ERROR && opk_get_status(opt) == OPK_NOT_STARTED, "must be started");
  vp_check(opk_get_evaluations(opt) == 0 && opk_get_iterations(opt) == 0 && opk_get_restarts(opt) == 0, "nothing counted");
  opk_get_name(buf, sizeof(buf), opt);
  vp_check(strcmp(buf, alg == OPK_ALGORITHM_NLCG ? "NLCG" : lt == 0 && ut == 0 ? "VMLM/L-BFGS" : "VMLMB") == 0, "name");
  started = vp_flip();
  if (started) {
    vp_check(opk_start(opt, x) == OPK_TASK_COMPUTE_FG && opk_get_status(opt) == OPK_SUCCESS, "started");
  }
  switch (vp_pick(0, 2)) {
  case 0: vp_check(opk_start(opt, NULL) == OPK_TASK_ERROR, "no variables"); break;
  case 1: vp_check(opk_iterate(opt, NULL, 1, g) == OPK_TASK_ERROR, "no variables"); break;
  default: vp_check(opk_iterate(opt, x, 1, NULL) == OPK_TASK_ERROR, "no gradient"); break;
  }
  vp_check(opk_get_task(opt) == OPK_TASK_ERROR && opk_get_status(opt) == OPK_ILLEGAL_ADDRESS, "reported");
  vp_check(opk_iterate(opt, x, 1, g) == OPK_TASK_ERROR && opk_get_status(opt) != OPK_SUCCESS, "permanent error");
  vp_check(opk_start(opt, x) == OPK_TASK_COMPUTE_FG && opk_get_status(opt) == OPK_SUCCESS && opk_get_task(opt) == OPK_TASK_COMPUTE_FG, "can be started again");
  opk_destroy_optimizer(opt);
  vp_check(vp_live() == 0, "nothing leaks");
  vp_reach("created");
  /* no optimizer */
  opk_destroy_optimizer(NULL);
  vp_check(opk_start(NULL, x) == OPK_TASK_ERROR && opk_iterate(NULL, x, 1, g) == OPK_TASK_ERROR, "no optimizer");
  vp_check(opk_get_task(NULL) == OPK_TASK_ERROR && opk_get_status(NULL) == OPK_ILLEGAL_ADDRESS, "no optimizer");
  vp_check(opk_get_evaluations(NULL) == 0 && opk_get_iterations(NULL) == 0 && opk_get_restarts(NULL) == 0, "no optimizer");
  vp_check(opk_get_step(NULL) <= 0 && opk_get_gnorm(NULL) <= 0, "no optimizer");
  strcpy(buf, "?");
  vp_check(opk_get_name(buf, sizeof(buf), NULL) == 1 && buf[0] == 0, "no optimizer");
  return 0;
}
