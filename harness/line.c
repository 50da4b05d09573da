/* Protocol of the line searches.
   OP 0: parameters of the constructors; 1: start and status; 2: iterations. */
#include "optimpack.h"
#include "vp.h"

static opk_lnsrch* make(int kind)
{
  opk_lnsrch* ls = (kind == 0 ? opk_lnsrch_new_backtrack(1e-4, vp_flip() ? 0.1 : 0.5) :
                    kind == 1 ? opk_lnsrch_new_nonmonotone(2, 1e-4, 0.1, 0.9) :
                    opk_lnsrch_new_csrch(1e-4, 0.9, 1e-10));
  vp_check(ls != NULL, "line search created");
  return ls;
}

static void consistent(opk_lnsrch* ls, opk_lnsrch_task t)
{
  vp_check(opk_lnsrch_get_task(ls) == t, "pending task");
  vp_check(opk_lnsrch_has_errors(ls) == (t == OPK_LNSRCH_ERROR), "errors");
  vp_check(opk_lnsrch_has_warnings(ls) == (t == OPK_LNSRCH_WARNING), "warnings");
  vp_check(opk_lnsrch_converged(ls) == (t == OPK_LNSRCH_CONVERGENCE), "converged");
  vp_check(opk_lnsrch_finished(ls) == (t != OPK_LNSRCH_SEARCH), "finished");
  vp_check((t == OPK_LNSRCH_ERROR) | (t == OPK_LNSRCH_SEARCH) | (t == OPK_LNSRCH_CONVERGENCE) | (t == OPK_LNSRCH_WARNING), "valid task");
  if (t == OPK_LNSRCH_SEARCH || t == OPK_LNSRCH_CONVERGENCE)
    vp_check(opk_lnsrch_get_status(ls) == OPK_SUCCESS, "status is success");
  else
    vp_check(opk_lnsrch_get_status(ls) != OPK_SUCCESS, "status tells the reason");
  if (t != OPK_LNSRCH_SEARCH) vp_check(opk_lnsrch_get_step(ls) == -1, "no current step");
}

int main(void)
{
  opk_lnsrch* ls;
#if OP == 0
  double a = vp_double(), b = vp_double(), c = vp_double();
  int ok, kind = (int)vp_pick(0, 2);
  errno = 0;
  if (kind == 0) {
    ok = ((a > 0) & (a <= 0.5) & (b > 0) & (b < 1));
    vp_assume((a != 0.5));   /* documented as excluded, accepted in practice */
    ls = opk_lnsrch_new_backtrack(a, b);
  } else if (kind == 1) {
    opk_index m = vp_pick(-1, 2);
    ok = ((m >= 1) & (a > 0) & (a <= DBL_MAX) & (b > 0) & (b < c) & (c < 1));
    ls = opk_lnsrch_new_nonmonotone(m, a, b, c);
  } else {
    ok = ((a >= 0) & (b >= 0) & (c >= 0));
    ls = opk_lnsrch_new_csrch(a, b, c);
  }
  vp_check((ls != NULL) == ok, "created if and only if the parameters are valid");
  if (ls == NULL) { vp_check(errno == EINVAL, "errno"); vp_reach("invalid"); return 0; }
  vp_check(opk_lnsrch_use_deriv(ls) == (kind == 2), "derivatives are needed by the cubic line search");
  vp_check(opk_lnsrch_get_status(ls) == OPK_NOT_STARTED, "status before starting");
  consistent(ls, OPK_LNSRCH_ERROR);
  { double stp = 1; vp_check(opk_lnsrch_iterate(ls, &stp, 0, 0) == OPK_LNSRCH_ERROR, "not started");
    vp_check(stp == 1, "step is unchanged"); }
  vp_check(opk_lnsrch_get_status(ls) == OPK_NOT_STARTED, "status before starting");
  vp_reach("valid");
  vp_check(opk_lnsrch_start(NULL, 0, -1, 1, 0, 2) == OPK_LNSRCH_ERROR, "no line search");
  { double stp = 1; vp_check(opk_lnsrch_iterate(NULL, &stp, 0, 0) == OPK_LNSRCH_ERROR && stp == 1, "no line search"); }
  vp_check(opk_lnsrch_get_task(NULL) == OPK_LNSRCH_ERROR && opk_lnsrch_get_status(NULL) == OPK_ILLEGAL_ADDRESS &&
           opk_lnsrch_get_step(NULL) == -1 && opk_lnsrch_has_errors(NULL) && opk_lnsrch_finished(NULL) &&
           !opk_lnsrch_converged(NULL) && !opk_lnsrch_has_warnings(NULL), "no line search");
  OPK_DROP(ls);
#elif OP == 1
  double f = vp_finite(), g = vp_double(), stp = vp_double(), lo = vp_double(), hi = vp_double();
  opk_lnsrch_task t;
  int bad, k, n = (int)vp_pick(1, 2);
  opk_status st;
  ls = make((int)vp_pick(0, 2));
  vp_assume((g == g) & (stp == stp) & (lo == lo) & (hi == hi));
  for (k = 0; k < n; ++k) {
    if (k) { g = vp_finite(); stp = vp_finite(); }
    t = opk_lnsrch_start(ls, f, g, stp, lo, hi);
    bad = (lo < 0) | (lo > hi) | (stp < lo) | (stp > hi) | (g >= 0);
    vp_check((t == OPK_LNSRCH_ERROR) == (bad != 0), "error if and only if the arguments are invalid");
    consistent(ls, t);
    st = opk_lnsrch_get_status(ls);
    if (bad) {
      vp_check(((st == OPK_STPMIN_LT_ZERO) & (lo < 0)) | ((st == OPK_STPMIN_GT_STPMAX) & (lo > hi)) | ((st == OPK_STEP_LT_STPMIN) & (stp < lo)) |
               ((st == OPK_STEP_GT_STPMAX) & (stp > hi)) | ((st == OPK_NOT_A_DESCENT) & (g >= 0)), "status tells which one");
      vp_check(opk_lnsrch_iterate(ls, &stp, f, g) == OPK_LNSRCH_ERROR, "not started");
      vp_check(opk_lnsrch_get_status(ls) == OPK_NOT_STARTED, "not started");
      consistent(ls, OPK_LNSRCH_ERROR);
      vp_reach("invalid");
    } else {
      vp_check(t == OPK_LNSRCH_SEARCH, "search");
      vp_check(opk_lnsrch_get_step(ls) == stp, "initial step");
      if (vp_flip()) {
        double other = vp_finite();
        vp_assume(other != stp);
        vp_check(opk_lnsrch_iterate(ls, &other, f, g) == OPK_LNSRCH_ERROR, "step changed by the caller");
        vp_check(opk_lnsrch_get_status(ls) == OPK_STEP_CHANGED, "step changed by the caller");
        consistent(ls, OPK_LNSRCH_ERROR);
        vp_reach("changed");
      } else if (vp_flip()) {
        vp_check(opk_lnsrch_iterate(ls, NULL, f, g) == OPK_LNSRCH_ERROR, "no address of the step");
      }
    }
  }
#else
  double f = vp_finite(), g = vp_finite(), stp = vp_finite(), lo = vp_finite(), hi = vp_finite();
  double best = 0, prev;
  opk_lnsrch_task t;
  int k;
  ls = make(KIND);
  vp_assume((g < 0) & (lo >= 0) & (lo <= stp) & (stp <= hi));
# ifdef VP_REAL
  vp_assume((fabs(f) < 1e3) & (g > -1e3) & (hi < 1e3));
# endif
# if KIND == 2
  vp_assume(stp > 0);
# endif
  t = opk_lnsrch_start(ls, f, g, stp, lo, hi);
  vp_check(t == OPK_LNSRCH_SEARCH, "started");
  for (k = 0; k < K; ++k) {
    double f1 = vp_finite(), g1 = vp_finite();
    double eps = 0;
# ifdef VP_REAL
    vp_assume((fabs(f1) < 1e3) & (fabs(g1) < 1e3));
# endif
    prev = stp;
    t = opk_lnsrch_iterate(ls, &stp, f1, g1);
    consistent(ls, t);
    vp_check(t != OPK_LNSRCH_ERROR, "no errors for valid calls");
    vp_check((stp >= lo) & (stp <= hi), "step is within its bounds");
    if (t == OPK_LNSRCH_SEARCH) {
      vp_check(opk_lnsrch_get_step(ls) == stp, "current step");
      vp_reach("search");
    } else {
      double next = stp;
      if (t == OPK_LNSRCH_CONVERGENCE) {
        vp_check(stp == prev, "step is not changed by the convergence");
        vp_reach("convergence");
      } else vp_reach("warning");
      vp_check(opk_lnsrch_iterate(ls, &next, f1, g1) == OPK_LNSRCH_ERROR, "search is finished");
      vp_check(next == stp, "step is unchanged");
      break;
    }
  }
  (void)best;
#endif
  return 0;
}
