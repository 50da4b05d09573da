/* Invalid arguments of COBYLA, NEWUOA and BOBYQA. */
#include "cobyla.h"
#include "newuoa.h"
#include "bobyqa.h"
#include "vp.h"
static int called;
static void *cd = &called;
static double f3(opk_index n, opk_index m, const double x[], double con[], void* data)
{
  opk_index i;
  vp_check(data == cd, "data"); (void)n; (void)x;
  for (i = 0; i < m; ++i) con[i] = -1 + (double)i;
  ++called;
  return called;
}
static double f2(const opk_index n, const double* x, void* data) { vp_check(data == cd, "data"); (void)n; (void)x; ++called; return called; }
static int good(double s) { return (s > 0) & (s <= DBL_MAX); }
int main(void)
{
  double x[4] = { 1, 2, 3, 4 }, xl[4] = { 0, 0, 0, 0 }, xu[4] = { 90, 90, 90, 90 }, scl[4] = { 1, 1, 1, 1 };
  long n = vp_long(), m = 0, npt = 0, maxfun = 1;
  double rb = vp_double(), re = vp_double();
  int st = 0, want, okr, oks, i, which, useS, mode;
  double *w;
  long* ia;
  if (vp_flip()) n = vp_pick(1, 3); else vp_assume((n <= 0) & (n > -1000));
  which = (int)vp_pick(0, 4);
  useS = which == 1 || which == 4 ? 0 : vp_flip();
  mode = (int)vp_pick(0, which == 1 || which == 4 ? 1 : 2);
  /* mode 0: any dimensions; mode 1: any radii (among wrong ones when the
     optimizer would start); mode 2: any wrong scaling factor */
  if (useS) { scl[0] = vp_flip() ? 2 : 1; scl[1] = vp_flip() ? 2 : 1; }
  if (mode != 1) { rb = 1; re = 0.5; }
  okr = (re > 0) & (re <= rb);
  oks = 1;
  if (mode == 1 && which != 1 && which != 4) vp_assume(!okr);
  if (mode == 2) {
    i = (int)vp_pick(0, 2);
    vp_assume((i < n) & useS);
    scl[i] = vp_double();
    oks = 0;
    vp_assume(!good(scl[i]));
  }
  errno = 0;
  if (which == 0 || which == 1) {
    m = vp_long(); vp_assume((m <= 2) & (m > -1000));
    if (which == 0) {
      w = malloc(400*sizeof(double)); ia = malloc(4*sizeof(long));
      st = cobyla_optimize(n, m, vp_flip(), f3, cd, x, useS ? scl : NULL, rb, re, 0, maxfun, w, ia);
      want = n < 1 ? COBYLA_BAD_NVARS : m < 0 ? COBYLA_BAD_NCONS : !okr ? COBYLA_BAD_RHO_RANGE : !oks ? COBYLA_BAD_SCALING : COBYLA_TOO_MANY_EVALUATIONS;
      vp_check(st == want, "cobyla status");
      if (want == COBYLA_TOO_MANY_EVALUATIONS) { vp_check(called == 1 && ia[0] == 1, "evaluations"); vp_reach("cobyla"); return 0; }
      vp_reach("bad cobyla");
    } else {
      cobyla_context* c;
      maxfun = vp_range(-5, 5);
      vp_malloc_may_fail(1);
      c = cobyla_create(n, m, rb, re, 0, maxfun);
      if (n < 1 || m < 0 || !okr || maxfun < 1) { vp_check(c == NULL && errno == EINVAL, "cobyla_create"); vp_reach("bad cobyla_create"); }
      else if (c == NULL) { vp_check(errno == ENOMEM, "cobyla_create"); vp_reach("cobyla_create no memory"); }
      else {
        double con[2] = { 0, 0 };
        vp_check(cobyla_get_status(c) == COBYLA_ITERATE && cobyla_get_nevals(c) == 0 && cobyla_get_rho(c) == 0, "created");
        vp_check(cobyla_iterate(NULL, 0, x, con) == COBYLA_BAD_ADDRESS && cobyla_restart(NULL) == COBYLA_BAD_ADDRESS && cobyla_get_status(NULL) == COBYLA_BAD_ADDRESS
                 && cobyla_get_nevals(NULL) == -1 && cobyla_get_rho(NULL) == -1 && cobyla_get_last_f(NULL) == -1, "no context");
        if (vp_flip()) vp_check(cobyla_iterate(c, 0, NULL, con) == COBYLA_BAD_ADDRESS && cobyla_get_status(c) == COBYLA_BAD_ADDRESS, "no variables");
        else if (m > 0) vp_check(cobyla_iterate(c, 0, x, NULL) == COBYLA_BAD_ADDRESS && cobyla_get_status(c) == COBYLA_BAD_ADDRESS, "no constraints");
        cobyla_delete(c); cobyla_delete(NULL);
        vp_check(vp_live() == 0, "deleted");
        vp_reach("cobyla_create");
      }
      return 0;
    }
  } else {
    npt = vp_long();
    vp_assume((npt >= -100) & (npt <= 100));
    want = !(n >= 2) ? 1 : npt < n + 2 || npt > (n + 1)*(n + 2)/2 ? 2 : !okr ? 3 : !oks && which != 4 ? 4 : 0;
    if (which == 4) {
      newuoa_context* c;
      maxfun = vp_range(-5, 5);
      vp_malloc_may_fail(1);
      c = newuoa_create(n, npt, rb, re, 0, maxfun);
      if (want || maxfun < 1) { vp_check(c == NULL && errno == EINVAL, "newuoa_create"); vp_reach("bad newuoa_create"); }
      else if (c == NULL) { vp_check(errno == ENOMEM, "newuoa_create"); vp_reach("newuoa_create no memory"); }
      else {
        vp_check(newuoa_get_status(c) == NEWUOA_ITERATE && newuoa_get_nevals(c) == 0 && newuoa_get_rho(c) == 0, "created");
        vp_check(newuoa_iterate(NULL, 0, x) == NEWUOA_BAD_ADDRESS && newuoa_restart(NULL) == NEWUOA_BAD_ADDRESS && newuoa_get_status(NULL) == NEWUOA_BAD_ADDRESS
                 && newuoa_get_nevals(NULL) == -1 && newuoa_get_rho(NULL) == -1, "no context");
        vp_check(newuoa_iterate(c, 0, NULL) == NEWUOA_BAD_ADDRESS && newuoa_get_status(c) == NEWUOA_BAD_ADDRESS, "no variables");
        newuoa_delete(c); newuoa_delete(NULL);
        vp_check(vp_live() == 0, "deleted");
        vp_reach("newuoa_create");
      }
      return 0;
    }
    w = malloc(1000*sizeof(double)); ia = NULL;
    if (which == 2) st = newuoa_optimize(n, npt, vp_flip(), f2, cd, x, useS ? scl : NULL, rb, re, 0, maxfun, w);
    else st = bobyqa_optimize(n, npt, vp_flip(), f2, cd, x, xl, xu, useS ? scl : NULL, rb, re, 0, maxfun, w);
    if (which == 2) {
      static const int code[5] = { NEWUOA_TOO_MANY_EVALUATIONS, NEWUOA_BAD_NVARS, NEWUOA_BAD_NPT, NEWUOA_BAD_RHO_RANGE, NEWUOA_BAD_SCALING };
      vp_check(st == code[want], "newuoa status");
    } else {
      static const int code[5] = { BOBYQA_TOO_MANY_EVALUATIONS, BOBYQA_BAD_NVARS, BOBYQA_BAD_NPT, BOBYQA_BAD_RHO_RANGE, BOBYQA_BAD_SCALING };
      vp_check(st == code[want], "bobyqa status");
    }
    if (!want) { vp_check(called == 1, "evaluations"); if (which == 2) vp_reach("newuoa"); else vp_reach("bobyqa"); return 0; }
    if (which == 2) vp_reach("bad newuoa"); else vp_reach("bad bobyqa");
  }
  vp_check(called == 0, "not evaluated");
  for (i = 0; i < 4; ++i) vp_check(x[i] == 1 + i, "untouched");
  free(w); free(ia);
  vp_check(vp_live() == 0 && vp_outputs() == 0, "nothing leaks or is printed");
  return 0;
}
