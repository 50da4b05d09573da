/* Acceptance and next step of the line searches based on function values.
   KIND 0: Armijo backtracking; 1: nonmonotone. */
#include "optimpack.h"
#include "vp.h"

#ifndef NREST
# define NREST 1
#endif
int main(void)
{
  opk_lnsrch* ls;
  double f0 = 0, g0, stp, lo, hi, ftol, amin = 0, sigma1 = 0, sigma2 = 0, worst;
  double hist[NREST];
  opk_lnsrch_task t;
  int k, i, m = 1, n = 1;
#if KIND == 0
  ftol = vp_flip() ? 1e-4 : 0.25;
  amin = vp_flip() ? 0.1 : 0.5;
  ls = opk_lnsrch_new_backtrack(ftol, amin);
#else
  m = (int)vp_pick(1, MMAX);
  n = (int)vp_pick(1, NREST);
  ftol = 0.01;
  sigma1 = 0.1; sigma2 = vp_flip() ? 0.9 : 0.5;
  ls = opk_lnsrch_new_nonmonotone(m, ftol, sigma1, sigma2);
#endif
  vp_check(ls != NULL, "line search created");
  for (k = 0; k < n; ++k) {
    /* several searches with the same object, only the last one is iterated */
    f0 = hist[k] = vp_dbl_in(-100, 100);
    g0 = vp_dbl_in(-100, 0);
    stp = vp_dbl_in(0, 100); lo = vp_dbl_in(0, 100); hi = vp_dbl_in(0, 100);
    vp_assume((g0 < 0) & (lo <= stp) & (stp <= hi));
    t = opk_lnsrch_start(ls, f0, g0, stp, lo, hi);
    vp_check(t == OPK_LNSRCH_SEARCH, "started");
  }
  worst = f0;
#if KIND == 1
  for (i = n - m < 0 ? 0 : n - m; i < n; ++i) if (hist[i] > worst) worst = hist[i];
#endif
  for (k = 0; k < K; ++k) {
    double f = vp_dbl_in(-100, 100), g = vp_dbl_in(-100, 100), a = stp;
    double q = -a*g0, r = 2*(f - f0 + q), best = a*q;  /* the interpolating parabola is minimal at best/r */
    t = opk_lnsrch_iterate(ls, &stp, f, g);
    if (f <= worst + ftol*a*g0) {
      vp_check(t == OPK_LNSRCH_CONVERGENCE, "a sufficient decrease is accepted");
      vp_check(stp == a, "accepted step is unchanged");
      vp_reach("convergence");
      return 0;
    }
    vp_check(t != OPK_LNSRCH_CONVERGENCE, "an insufficient decrease is rejected");
    if (a == lo) {
      vp_check(t == OPK_LNSRCH_WARNING && opk_lnsrch_get_status(ls) == OPK_STEP_EQ_STPMIN, "cannot reduce the step");
      vp_check(stp == lo, "smallest step");
      vp_reach("smallest");
      return 0;
    }
    vp_check(t == OPK_LNSRCH_SEARCH, "search goes on");
    vp_check((stp >= lo) & (stp <= a), "the step is reduced");
#if KIND == 0
    if (amin >= 0.5 || r <= 0) {
      double e = a/2; if (e < lo) e = lo;
      vp_check_eq(stp, e, "bisection step");
    } else if (best <= amin*a*r) {
      double e = amin*a; if (e < lo) e = lo;
      vp_check_eq(stp, e, "smallest reduction of the step");
    } else {
      vp_check((stp == lo) | vp_same(stp*r, best), "minimum of the parabola");
      vp_check(stp*r >= best, "minimum of the parabola");
      vp_reach("parabola");
    }
#else
    if (r > 0 && best >= sigma1*r && best <= sigma2*a*r) {
      vp_check((stp == lo) | vp_same(stp*r, best), "minimum of the parabola");
      vp_check(stp*r >= best, "minimum of the parabola");
      vp_reach("parabola");
    } else vp_check_eq(stp, (a + lo)/2, "bisection step");
#endif
  }
  return 0;
}
