/* More & Thuente line search: after PREFIX iterations with given data, one
   iteration with arbitrary data.  The step and the outcome are compared with
   an independent transcription of the published algorithm (MINPACK-2 dcsrch
   and dcstep, the initial interval being the allowed range of steps). */
#include "optimpack.h"
#include "vp.h"

static double ftol, gtol, xtol, stpmin, stpmax, f0, g0, gtest;
static double stx, fx, gx, sty, fy, gy, stmin, stmax, width, width1;
static int brackt, stage;

static double big(double a, double b) { return a >= b ? a : b; }
static double small(double a, double b) { return a <= b ? a : b; }
static double mag(double a) { return a < 0 ? -a : a; }

/* returns the new step */
static double ref_step(double* sx, double* vx, double* dx, double* sy, double* vy, double* dy,
                       double st, double vp, double dp)
{
  double t, s, gam, c, q, r;
  int opp = (dp > 0) != (*dx > 0) && dp != 0;
  if (vp > *vx) { /* higher value */
    t = 3*(*vx - vp)/(st - *sx) + *dx + dp;
    s = big(mag(t), big(mag(*dx), mag(dp)));
    gam = s*sqrt((t/s)*(t/s) - (*dx/s)*(dp/s));
    if (st < *sx) gam = -gam;
    r = ((gam - *dx) + t)/(((gam - *dx) + gam) + dp);
    c = *sx + r*(st - *sx);
    q = *sx + (*dx/((*vx - vp)/(st - *sx) + *dx))/2*(st - *sx);
    r = mag(c - *sx) < mag(q - *sx) ? c : c + (q - c)/2;
    brackt = 1;
  } else if (opp) { /* lower value, derivatives of opposite sign */
    t = 3*(*vx - vp)/(st - *sx) + *dx + dp;
    s = big(mag(t), big(mag(*dx), mag(dp)));
    gam = s*sqrt((t/s)*(t/s) - (*dx/s)*(dp/s));
    if (st > *sx) gam = -gam;
    r = ((gam - dp) + t)/(((gam - dp) + gam) + *dx);
    c = st + r*(*sx - st);
    q = st + (dp/(dp - *dx))*(*sx - st);
    r = mag(c - st) > mag(q - st) ? c : q;
    brackt = 1;
  } else if (mag(dp) < mag(*dx)) { /* same sign, smaller derivative */
    t = 3*(*vx - vp)/(st - *sx) + *dx + dp;
    s = big(mag(t), big(mag(*dx), mag(dp)));
    gam = (t/s)*(t/s) - (*dx/s)*(dp/s);
    gam = (gam > 0 ? s*sqrt(gam) : 0);
    if (st > *sx) gam = -gam;
    r = ((gam - dp) + t)/((gam + (*dx - dp)) + gam);
    c = (r < 0 && gam != 0) ? st + r*(*sx - st) : st > *sx ? stmax : stmin;
    q = st + (dp/(dp - *dx))*(*sx - st);
    if (brackt) {
      r = mag(c - st) < mag(q - st) ? c : q;
      t = st + 0.66*(*sy - st);
      r = st > *sx ? small(t, r) : big(t, r);
    } else {
      r = mag(c - st) > mag(q - st) ? c : q;
      r = big(stmin, small(stmax, r));
    }
  } else { /* same sign, derivative does not decrease */
    if (brackt) {
      t = 3*(vp - *vy)/(*sy - st) + *dy + dp;
      s = big(mag(t), big(mag(*dy), mag(dp)));
      gam = s*sqrt((t/s)*(t/s) - (*dy/s)*(dp/s));
      if (st > *sy) gam = -gam;
      r = st + (((gam - dp) + t)/(((gam - dp) + gam) + *dy))*(*sy - st);
    } else r = st > *sx ? stmax : stmin;
  }
  if (vp > *vx) { *sy = st; *vy = vp; *dy = dp; }
  else {
    if (opp) { *sy = *sx; *vy = *vx; *dy = *dx; }
    *sx = st; *vx = vp; *dx = dp;
  }
  return r;
}

static int ref_iterate(double* st, double f, double g, int* why)
{
  double s = *st, ftest = f0 + s*gtest;
  *why = OPK_SUCCESS;
  if (f <= ftest && mag(g) <= gtol*(-g0)) return OPK_LNSRCH_CONVERGENCE;
  if (s == stpmin && (f > ftest || g >= gtest)) { *why = OPK_STEP_EQ_STPMIN; return OPK_LNSRCH_WARNING; }
  if (s == stpmax && f <= ftest && g <= gtest) { *why = OPK_STEP_EQ_STPMAX; return OPK_LNSRCH_WARNING; }
  if (brackt && stmax - stmin <= xtol*stmax) { *why = OPK_XTOL_TEST_SATISFIED; return OPK_LNSRCH_WARNING; }
  if (brackt && (s <= stmin || s >= stmax)) { *why = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS; return OPK_LNSRCH_WARNING; }
  if (stage == 1 && f <= ftest && g >= 0) stage = 2;
  if (stage == 1 && f <= fx && f > ftest) {
    double fxm = fx - stx*gtest, fym = fy - sty*gtest, gxm = gx - gtest, gym = gy - gtest;
    s = ref_step(&stx, &fxm, &gxm, &sty, &fym, &gym, s, f - s*gtest, g - gtest);
    fx = fxm + stx*gtest; fy = fym + sty*gtest; gx = gxm + gtest; gy = gym + gtest;
  } else s = ref_step(&stx, &fx, &gx, &sty, &fy, &gy, s, f, g);
  if (brackt) {
    if (mag(sty - stx) >= 0.66*width1) s = stx + 0.5*(sty - stx);
    width1 = width;
    width = mag(sty - stx);
    stmin = small(stx, sty);
    stmax = big(stx, sty);
  } else {
    stmin = s + (s - stx)*1.1;
    stmax = s + (s - stx)*4.0;
  }
  s = small(stpmax, big(stpmin, s));
  if (brackt && (s <= stmin || s >= stmax || stmax - stmin <= xtol*stmax)) s = stx;
  *st = s;
  return OPK_LNSRCH_SEARCH;
}

int main(void)
{
  static const double first[3] = { 1, 0.125, 3 };
#ifdef FULL
# define NCURV 7
#else
# define NCURV 4
#endif
  static const double curv[7] = { 4, 0.5625, 0.25, -1, 0.875, 0, 0.90625 };
  opk_lnsrch* ls;
  double stp, ref;
  int k, n, t, rt, why;
#if PREFIX == 0 || defined(FULL)
  ftol = vp_flip() ? 0.0625 : 0.25;
  gtol = vp_flip() ? 0.875 : 0.125;
  stpmin = vp_flip() ? 0 : 0.125;
#else
  ftol = 0.0625;
  gtol = 0.125;
  stpmin = 0;
#endif
  xtol = vp_flip() ? 0.0 : 0.25;
  stpmax = 4;
#if PREFIX == 0
  stp = first[vp_pick(0, 2)];
  if (vp_flip()) stpmax = stp;
#else
  stp = 1;
#endif
  ls = opk_lnsrch_new_csrch(ftol, gtol, xtol);
  vp_check(ls != NULL, "line search created");
#if PREFIX == 0
  f0 = vp_dbl_in(-100, 100);
  g0 = vp_dbl_in(-100, -0.01);
#else
  f0 = 2; g0 = -1;
#endif
  gtest = ftol*g0;
  stmin = stpmin; stmax = stpmax; width = stpmax - stpmin; width1 = 2*width; brackt = 0;
  stx = sty = 0; fx = fy = f0; gx = gy = g0; stage = 1;
  t = opk_lnsrch_start(ls, f0, g0, stp, stpmin, stpmax);
  vp_check(t == OPK_LNSRCH_SEARCH, "started");
  for (k = 0; k <= PREFIX; ++k) {
    double f1, g1;
    if (k < PREFIX) {
      double c = (k == 0 ? curv[vp_pick(0, NCURV - 1)] : curv[vp_pick(0, 3)]);
      double m = (k == 0 ? 0.0 : vp_flip() ? 1.0 : 0.0);
      f1 = m + f0 + g0*stp + c*stp*stp;
      g1 = g0 + 2*c*stp;
    } else {
      f1 = vp_dbl_in(-100, 100);
      g1 = vp_dbl_in(-100, 100);
    }
    n = brackt;
    ref = stp;
    rt = ref_iterate(&ref, f1, g1, &why);
    t = opk_lnsrch_iterate(ls, &stp, f1, g1);
    if (rt == OPK_LNSRCH_SEARCH && !(t == OPK_LNSRCH_SEARCH)) {
      /* the step is blocked at a bound */
      vp_check(t == OPK_LNSRCH_WARNING, "no errors for valid calls");
      vp_check(opk_lnsrch_get_status(ls) == (ref == stpmin ? OPK_STEP_EQ_STPMIN : OPK_STEP_EQ_STPMAX), "step blocked at a bound");
      vp_check((ref == stpmin) | (ref == stpmax), "step blocked at a bound");
#if PREFIX == 0
      vp_reach("blocked");
#endif
      return 0;
    }
    vp_check(t == rt, "outcome of the iteration");
    vp_check(opk_lnsrch_get_status(ls) == (opk_status)why, "status of the iteration");
    vp_check((stp >= stpmin) & (stp <= stpmax), "step is within its bounds");
    vp_check_eq(stp, ref, "next step");
    if (t == OPK_LNSRCH_CONVERGENCE) {
      vp_check((f1 <= f0 + ftol*stp*g0) & (mag(g1) <= gtol*(-g0)), "strong Wolfe conditions");
      vp_reach("converged");
      return 0;
    }
    if (t != OPK_LNSRCH_SEARCH) {
      vp_reach("warning");
      return 0;
    }
    if (brackt) vp_check((stp >= stmin) & (stp <= stmax), "step is in the bracket");
    vp_reach("search");
  }
  (void)n;
  return 0;
}
