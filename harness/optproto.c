/* Reverse communication protocol of the optimizers over abstract vectors and
   line searches.  OPT 0: NLCG; 1: L-BFGS; 2: VMLMB; 3: BLMVM. */
#include "havoc.h"
#ifndef NCALL
# define NCALL 4
#endif
#ifdef FULL
# define FVAL vp_dbl_in(0, 1000)
#else
# define FVAL 2
#endif
#if OPT == 0
typedef opk_nlcg optimizer;
# define START opk_start_nlcg
# define ITERATE opk_iterate_nlcg
# define GET(what) opk_get_nlcg_##what(opt)
#else
typedef opk_vmlmb optimizer;
# define START opk_start_vmlmb
# define ITERATE opk_iterate_vmlmb
# define GET(what) opk_get_vmlmb_##what(opt)
#endif

int main(void)
{
  int cfg = (int)vp_pick(0, 2);
  opk_vspace* s = havoc_space(8);
  opk_lnsrch* ls = havoc_lnsrch(cfg == 1);
  optimizer* opt;
  opk_vector *x, *g;
  opk_task task;
  long evals = 0, iters = 0, restarts = 0;
  int i, vx, vg, again, started, red;
#if OPT == 0
  opk_nlcg_options o;
  opk_get_nlcg_default_options(&o);
# ifndef METHODS
#  define METHODS 2
# endif
  static const unsigned meth[8] = { OPK_NLCG_PERRY_SHANNO, OPK_NLCG_FLETCHER_REEVES, OPK_NLCG_HESTENES_STIEFEL, OPK_NLCG_POLAK_RIBIERE_POLYAK, OPK_NLCG_FLETCHER, OPK_NLCG_LIU_STOREY, OPK_NLCG_DAI_YUAN, OPK_NLCG_HAGER_ZHANG };
  o.flags = meth[vp_pick(0, METHODS - 1)];
  if (vp_flip()) o.flags |= OPK_NLCG_SHANNO_PHUA;
#else
  opk_vmlmb_options o;
  opk_convexset* box = (OPT == 1 ? NULL : havoc_set(s));
  opk_get_vmlmb_default_options(&o);
  o.mem = 1;
  o.blmvm = (OPT == 3);
  o.save_memory = (cfg != 1);
#endif
  o.stpmin = 0.0625; o.stpmax = 16;
  o.epsilon = cfg == 0 ? 0 : 0.5;
  o.grtol = 0; o.gatol = 1;
  opt =
#if OPT == 0
    opk_new_nlcg_optimizer(&o, s, ls);
#else
    opk_new_vmlmb_optimizer(&o, s, ls, box);
  OPK_DROP(box);
#endif
  vp_check(opt != NULL, "optimizer created");
  x = opk_vcreate(s);
  g = opk_vcreate(s);
  vx = HV(x)->version;
  vp_check(GET(task) == OPK_TASK_ERROR && GET(status) == OPK_NOT_STARTED, "not yet started");
  vp_check(ITERATE(opt, x, 1, g) == OPK_TASK_ERROR && GET(status) == OPK_NOT_STARTED && HV(x)->version == vx, "must be started first");
  /* start again before this call */
#ifdef FULL
  again = (int)vp_pick(1, NCALL);
#else
  again = (int)vp_pick(1, 3); if (again == 3) again = NCALL;
#endif
  task = OPK_TASK_ERROR;
  for (i = 0; i < NCALL; ++i) {
    opk_task t;
    opk_status why = OPK_SUCCESS;
    int first;
    if (i == 0 || i == again) {
      if (i == again) {
        if (task == OPK_TASK_ERROR) vp_reach("started again after an error");
        else if (task == OPK_TASK_FINAL_X) vp_reach("started again after convergence");
        else vp_reach("started again");
      }
      vx = HV(x)->version;
      task = START(opt, x);
      vp_check(task == OPK_TASK_COMPUTE_FG, "function and gradient are needed first");
#ifdef FEAS
      vp_check(HV(x)->feasible, "initial variables are made feasible");
#elif OPT < 2
      vp_check(HV(x)->version == vx, "initial variables are unchanged");
#endif
      evals = iters = restarts = 0;
    }
    vp_check(GET(task) == task && GET(evaluations) == evals && GET(iterations) == iters && GET(restarts) == restarts, "state is consistent with the last call");
    if (task == OPK_TASK_COMPUTE_FG) hput(g, 0);
    vx = HV(x)->version;
    vg = HV(g)->version;
    first = (evals == 0);
    h_outcome = (opk_lnsrch_task)99; h_why = OPK_SUCCESS;
    started = h_starts; red = h_iters;
    t = ITERATE(opt, x, FVAL, g);
    vp_check(t == GET(task), "pending task");
    vp_check((t == OPK_TASK_ERROR) == (GET(status) != OPK_SUCCESS), "status reports errors");
    vp_check(HV(g)->version == vg, "gradient is left unchanged");
    vp_check(t == OPK_TASK_COMPUTE_FG || HV(x)->version == vx, "variables only change to request a new evaluation");
    switch (task) {
    case OPK_TASK_COMPUTE_FG:
      ++evals;
      vp_check(h_starts == started, "no new search");
      if (first) {
        vp_check(h_iters == red, "no search in progress");
        vp_check(t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X, "initial point is available");
        vp_reach("first");
      } else {
        vp_check(h_iters == red + 1, "one iteration of the line search");
        if (h_outcome == OPK_LNSRCH_SEARCH) {
          vp_check(t == OPK_TASK_COMPUTE_FG, "search goes on");
          vp_check(HV(x)->version != vx, "new trial point");
          vp_reach("search");
        } else if (h_outcome == OPK_LNSRCH_CONVERGENCE || (h_outcome == OPK_LNSRCH_WARNING && h_why == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS)) {
          ++iters;
          vp_check(t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X, "new iterate is available");
          vp_reach("iterate");
        } else {
          vp_check(t == OPK_TASK_ERROR && GET(status) == h_why, "failure of the line search is reported");
          vp_reach("line search failure");
        }
      }
      if (t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X) {
        vp_check((t == OPK_TASK_FINAL_X) == (GET(gnorm) <= 1), "convergence test");
        if (t == OPK_TASK_FINAL_X) vp_reach("converged");
      }
      break;
    case OPK_TASK_NEW_X:
    case OPK_TASK_FINAL_X:
      vp_check(h_iters == red, "line search is over");
      vp_check(GET(restarts) == restarts || GET(restarts) == restarts + 1, "at most one restart");
      vp_check(evals > 1 || GET(restarts) == restarts, "no restart for the first search");
      if (GET(restarts) != restarts) vp_reach("restart");
      restarts = GET(restarts);
      if (t == OPK_TASK_COMPUTE_FG) {
        vp_check(h_starts == started + 1 && h_outcome == OPK_LNSRCH_SEARCH, "a new search is started");
        vp_check(HV(x)->version != vx, "new trial point");
        vp_reach("new search");
      } else {
        vp_check(t == OPK_TASK_ERROR, "a new search starts or fails");
        if (h_starts == started + 1) {
          vp_check(GET(status) == h_why, "failure of the line search is reported");
          vp_reach("search not started");
        }
      }
      break;
    default:
      vp_check(t == OPK_TASK_ERROR && h_starts == started && h_iters == red, "errors are permanent");
      vp_reach("after an error");
      break;
    }
#ifdef FEAS
    vp_check(HV(x)->feasible, "variables are always feasible");
#endif
    task = t;
    vp_check(GET(evaluations) == evals, "number of evaluations");
    vp_check(GET(iterations) == iters, "number of iterations");
    vp_check(GET(restarts) == restarts, "number of restarts");
  }
  OPK_DROP(opt); OPK_DROP(x); OPK_DROP(g); OPK_DROP(s); OPK_DROP(ls);
  vp_check(vp_live() == 0, "nothing leaks");
  return 0;
}
