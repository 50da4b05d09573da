/* Common parts of the harnesses of the optimizers: the 4 methods behind one
   interface and a line search accepting every step.
   OPT 0: NLCG; 1: L-BFGS; 2: VMLMB; 3: BLMVM. */
#include "optimpack-private.h"
#include "space.h"
#if OPT == 0
typedef opk_nlcg optimizer;
typedef opk_nlcg_options options;
# define START opk_start_nlcg
# define ITERATE opk_iterate_nlcg
# define DEFAULTS opk_get_nlcg_default_options
# define GET(what) opk_get_nlcg_##what(opt)
#else
typedef opk_vmlmb optimizer;
typedef opk_vmlmb_options options;
# define START opk_start_vmlmb
# define ITERATE opk_iterate_vmlmb
# define DEFAULTS opk_get_vmlmb_default_options
# define GET(what) opk_get_vmlmb_##what(opt)
#endif
static opk_lnsrch_task a_end(opk_lnsrch* l, opk_lnsrch_task t) { l->task = t; l->status = OPK_SUCCESS; return t; }
static int a_more;   /* number of steps to refuse */
static double a_next; /* next step after a refused one */
static double a_slope, a_slope0, a_f, a_step0, a_min, a_max;
static opk_lnsrch_task a_start(opk_lnsrch* l) { a_slope0 = l->ginit; a_step0 = l->stp; a_min = l->stpmin; a_max = l->stpmax; return a_end(l, OPK_LNSRCH_SEARCH); }
static opk_lnsrch_task a_iterate(opk_lnsrch* l, double* stp, double f, double df)
{
  a_slope = df; a_f = f;
  if (a_more > 0) { --a_more; *stp = a_next; return a_end(l, OPK_LNSRCH_SEARCH); }
  return a_end(l, OPK_LNSRCH_CONVERGENCE);
}
static opk_lnsrch_operations a_ops = { NULL, a_start, a_iterate, OPK_TRUE };
static opk_lnsrch* accept_lnsrch(void) { return opk_allocate_line_search(&a_ops, 0); }
static optimizer* make_optimizer(options* o, opk_vspace* s, opk_lnsrch* ls, opk_convexset* box)
{
#if OPT == 0
  (void)box;
  return opk_new_nlcg_optimizer(o, s, ls);
#else
  o->blmvm = (OPT == 3);
  return opk_new_vmlmb_optimizer(o, s, ls, box);
#endif
}
static double mag(double a) { return a < 0 ? -a : a; }
