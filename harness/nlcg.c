/* Search directions, restarts, steps and trial points of the nonlinear
   conjugate gradient methods: after PAIRS accepted steps with given gradients,
   the last gradient being arbitrary.  The oracle follows the textbooks, for
   the direction p (the library uses -p). */
#define OPT 0
#include "optim.h"
#define N 2
#ifndef PAIRS
# define PAIRS 1
#endif
static double p[N], beta, slope, step, pg0[N], slope0;
static long restarts;

static double dot(const double* a, const double* b)
{
  double t = 0;
  int i;
  for (i = 0; i < N; ++i) t += a[i]*b[i];
  return t;
}

static void direction(const double* x, const double* g, double f, const options* o, int first)
{
  double y[N], gg = dot(g, g), yy, py, gy, pg;
  int i, ok = !first;
  slope0 = slope;
  slope = 0;
  if (ok) {
    double g0g0 = dot(pg0, pg0);
    for (i = 0; i < N; ++i) y[i] = g[i] - pg0[i];
    yy = dot(y, y); py = dot(p, y); gy = dot(g, y); pg = dot(p, g);
#if METHOD == 7 /* Perry & Shanno: memoryless BFGS */
    ok = (yy > 0) && py != 0;
    if (ok) {
      double H[N][N], V[N][N], T[N][N], q[N], ga = py/yy;
      int j, k;
      for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) V[i][j] = (i == j ? 1 : 0) - p[i]*y[j]/py;
      for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) T[i][j] = V[i][j]*ga;
      for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) { H[i][j] = p[i]*p[j]/py; for (k = 0; k < N; ++k) H[i][j] += T[i][k]*V[j][k]; }
      for (i = 0; i < N; ++i) { q[i] = 0; for (j = 0; j < N; ++j) q[i] -= H[i][j]*g[j]; }
      for (i = 0; i < N; ++i) p[i] = q[i];
    }
#else
    beta =
# if METHOD == 1
      gg/g0g0;
# elif METHOD == 2
      py != 0 ? gy/py : 0;
# elif METHOD == 3
      gy/g0g0;
# elif METHOD == 4
      -gg/slope0;
# elif METHOD == 5
      -gy/slope0;
# elif METHOD == 6
      py != 0 ? gg/py : 0;
# else
      py != 0 ? (gy - 2*pg*yy/py)/py : 0;
# endif
    if ((o->flags & OPK_NLCG_POWELL) != 0 && beta < 0) beta = 0;
    ok = (beta != 0);
    if (ok) for (i = 0; i < N; ++i) p[i] = beta*p[i] - g[i];
#endif
    if (ok) {
      slope = dot(p, g);
      if (o->epsilon > 0 && slope > -o->epsilon*sqrt(dot(p, p))*sqrt(gg)) slope = 0;
    }
    (void)g0g0; (void)pg; (void)yy; (void)py; (void)gy;
  }
  if (slope < 0) {
    if ((o->flags & OPK_NLCG_SHANNO_PHUA) == OPK_NLCG_SHANNO_PHUA) step *= slope0/slope;
    if (PAIRS > 0) vp_reach("conjugate direction");
  } else {
    if (!first) { ++restarts; if (METHOD != 1 && METHOD != 4) vp_reach("restart"); }
    beta = 0;
    for (i = 0; i < N; ++i) p[i] = -g[i];
    slope = -gg;
    if (o->fmin_given && o->fmin < f) { step = 2*(f - o->fmin)/gg; }
    else if (f != 0) step = 2*mag(f)/gg;
    else {
      double xx = dot(x, x);
      step = o->delta*(xx > 0 ? sqrt(xx) : 1)/sqrt(gg);
    }
  }
  for (i = 0; i < N; ++i) pg0[i] = g[i];
}

int main(void)
{
  static const double grads[8][N] = { { 3, 4 }, { -0.75, 1 }, { 0.75, -1 }, { 4, -3 }, { -3, -4 }, { 1, 0 }, { -1, 0.25 }, { 0, -2 } };
  opk_vspace* s = NEWSPACE(N);
  opk_lnsrch* ls = accept_lnsrch();
  optimizer* opt;
  options o;
  opk_vector *vx, *vg;
  double *x, *g, x0[N], f = 0;
  opk_task t;
  int i, k;
  DEFAULTS(&o);
  o.flags = METHOD;
#if METHOD != 7
  if (vp_flip()) o.flags |= OPK_NLCG_POWELL;
#endif
  if (vp_flip()) o.flags |= OPK_NLCG_SHANNO_PHUA;
#ifdef EPS
  o.epsilon = 0.75;
#endif
  o.delta = 0.125; o.gatol = 0; o.grtol = 0;
  o.stpmin = 0.015625; o.stpmax = 1024;
  k = (int)vp_pick(0, 2);
  o.fmin_given = (k > 0);
  o.fmin = (k == 1 ? -5 : 3);
  opt = make_optimizer(&o, s, ls, NULL);
  vp_check(opt != NULL, "created");
  vx = opk_vcreate(s); vg = opk_vcreate(s);
  x = DATA(vx); g = DATA(vg);
  for (i = 0; i < N; ++i) x[i] = 0;
  if (vp_flip()) { x[0] = 3; x[1] = -4; }
  t = START(opt, vx);
  for (k = 0; k <= PAIRS; ++k) {
    if (k < PAIRS) {
      int q = (int)vp_pick(0, k == 0 ? 0 : 3);
      for (i = 0; i < N; ++i) g[i] = grads[q][i];
      f = (k == 0 ? 4 : 2);
    } else {
#ifdef ONEVAR
      int q = (int)vp_pick(0, 1);
      g[q] = SYM();
      g[1 - q] = -1;
#else
      for (i = 0; i < N; ++i) g[i] = SYM();
#endif
      f = vp_flip() ? 0 : -2;
    }
    vp_check(t == OPK_TASK_COMPUTE_FG, "evaluation requested");
    t = ITERATE(opt, vx, f, vg);
    vp_check((t == OPK_TASK_NEW_X) | (t == OPK_TASK_FINAL_X), "step accepted");
    if (GET(gnorm) == 0) return 0;
    for (i = 0; i < N; ++i) x0[i] = x[i];

    direction(x0, g, f, &o, k == 0);
    t = ITERATE(opt, vx, f, vg);
    vp_check(GET(restarts) == restarts, "number of restarts");
    vp_check(t == OPK_TASK_COMPUTE_FG, "search started");
    if (k == PAIRS) vp_check_eq(a_slope0, slope, "directional derivative");
#if METHOD != 7
    vp_check_eq(GET(beta), beta, "conjugate gradient parameter");
#endif
    vp_check_eq(a_step0, step, "initial step");
    vp_check_eq(a_min, step*o.stpmin, "smallest step");
    vp_check_eq(a_max, step*o.stpmax, "largest step");
    for (i = 0; i < N; ++i) vp_check_eq(x[i], x0[i] + step*p[i], "trial point");
  }
  /* one more step */
  a_more = 1; a_next = step*0.75;
  for (i = 0; i < N; ++i) g[i] = grads[1][i];
  t = ITERATE(opt, vx, 1, vg);
  vp_check(t == OPK_TASK_COMPUTE_FG, "search goes on");
  vp_check_eq(a_slope, dot(p, g), "directional derivative of the trial");
  for (i = 0; i < N; ++i) vp_check_eq(x[i], x0[i] + a_next*p[i], "next trial point");
  vp_reach("shorter step");
  return 0;
}
