/* Search directions, restarts, initial steps and trial points of the variable
   metric methods: after PAIRS accepted steps with given gradients, the last
   gradient being arbitrary.  The oracle is the BFGS update of the inverse
   Hessian as a dense matrix, restricted to the free variables for VMLMB. */
#include "optim.h"
#define N 2
#ifndef PAIRS
# define PAIRS 1
#endif
#ifndef MEM
# define MEM 1
#endif

static double ps[8][N], py[8][N];     /* pairs since the last restart */
static int npairs;
static double d[N], wfree[N];
static double slope, step, smin, smax, pg2;
static long restarts;
static int blocked;

static double dot(const double* w, const double* a, const double* b)
{
  double t = 0;
  int i;
  for (i = 0; i < N; ++i) t += (w ? w[i] : 1)*a[i]*b[i];
  return t;
}

/* blocked in direction -v */
static int stuck(double x, double v) { return OPT >= 2 && ((x <= 0 && v >= 0) || (x >= 1 && v <= 0)); }

static opk_vector *vw, *vx, *vg;
static opk_convexset* box;

static void direction(const double* x, const double* g, double f, const options* o, int first)
{
  double H[N][N], big = 0, lim, g0n;
  const double* w = (OPT == 2 ? wfree : NULL);
  int i, j, k, p, used = 0, lo;
  pg2 = 0;
#if OPT >= 2
  vp_check(opk_get_free_variables(vw, vx, box, vg, OPK_ASCENT) == OPK_SUCCESS, "free variables");
#endif
  for (i = 0; i < N; ++i) {
    wfree[i] = OPT >= 2 ? DATA(vw)[i] : 1;
    vp_check(g[i] == 0 || wfree[i] == (stuck(x[i], g[i]) ? 0 : 1), "free variables");
    pg2 += wfree[i]*g[i]*g[i];
  }
  g0n = sqrt(pg2);
  lo = npairs > MEM ? npairs - MEM : 0;
  /* scaling by the last usable pair */
  for (p = npairs - 1; p >= lo; --p) {
    double sy = dot(w, ps[p], py[p]);
    if (sy > 0) {
      double ga = sy/dot(w, py[p], py[p]);
      for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) H[i][j] = (i == j ? ga : 0);
      used = 1;
      break;
    }
  }
  slope = 0;
  if (used) {
    for (p = lo; p < npairs; ++p) {
      double sy = dot(w, ps[p], py[p]), V[N][N], T[N][N];
      if (!(sy > 0)) continue;
      /* H <- (I - s y'/sy) H (I - y s'/sy) + s s'/sy */
      for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) V[i][j] = (i == j ? 1 : 0) - (w ? w[i]*w[j] : 1)*ps[p][i]*py[p][j]/sy;
      for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) { T[i][j] = 0; for (k = 0; k < N; ++k) T[i][j] += V[i][k]*H[k][j]; }
      for (i = 0; i < N; ++i) for (j = 0; j < N; ++j) { H[i][j] = (w ? w[i]*w[j] : 1)*ps[p][i]*ps[p][j]/sy; for (k = 0; k < N; ++k) H[i][j] += T[i][k]*V[j][k]; }
    }
    for (i = 0; i < N; ++i) {
      d[i] = 0;
      for (j = 0; j < N; ++j) d[i] += H[i][j]*(w ? w[j] : 1)*g[j];
      if (w && w[i] == 0) d[i] = 0;
    }
    for (i = 0; i < N; ++i) if (stuck(x[i], d[i])) d[i] = 0;
    slope = -dot(NULL, d, g);
    if (o->epsilon > 0 && -slope < o->epsilon*sqrt(dot(NULL, d, d))*g0n) slope = 0;
  }
  if (slope < 0) {
    step = 1;
    vp_reach("quasi-Newton direction");
  } else {
    if (npairs > 0) { ++restarts; if (OPT != 3 || MEM == 1) vp_reach("restart"); }
    npairs = 0;
    for (i = 0; i < N; ++i) d[i] = wfree[i]*g[i];
    slope = -pg2;
    if (f != 0) step = 2*mag(f)/pg2;
    else {
      double xn = sqrt(dot(OPT >= 2 ? wfree : NULL, x, x));
      step = o->delta*(xn > 0 ? xn : 1)/g0n;
    }
  }
  smin = step*o->stpmin;
  smax = step*o->stpmax;
  blocked = 0;
  if (OPT >= 2) {
    for (i = 0; i < N; ++i) {
      if (d[i] == 0) continue;
      lim = (d[i] > 0 ? x[i] : x[i] - 1)/d[i];
      if (lim > big) big = lim;
    }
    if (big <= 0) { blocked = 1; return; }
    if (step > big) step = big;
    if (smax > big) smax = big;
  }
  (void)first;
}

static void trial(double* x1, const double* x, double stp)
{
  int i;
  for (i = 0; i < N; ++i) {
    x1[i] = x[i] - stp*d[i];
    if (OPT >= 2) { if (x1[i] < 0) x1[i] = 0; if (x1[i] > 1) x1[i] = 1; }
  }
}

int main(void)
{
  static const double start[4][N] = { { 0.25, 0.75 }, { 0, 0.5 }, { 1, 0.5 }, { 0, 0 } };
  static const double grads[8][N] = { { 3, 4 }, { -0.75, 1 }, { 0.75, -1 }, { -3, -4 }, { 1, 0 }, { 4, -3 }, { -1, 0.25 }, { 0, -2 } };
  opk_vspace* s = NEWSPACE(N);
  opk_lnsrch* ls = accept_lnsrch();
  optimizer* opt;
  options o;
  double *x, *g, x0[N], g0[N], x1[N], f = 0;
  opk_task t;
  int i, k;
#if OPT >= 2
  { double lo = 0, hi = 1; box = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &hi); }
#endif
  DEFAULTS(&o);
  o.mem = MEM;
#ifdef EPS
  o.epsilon = 0.75;
#endif
  o.delta = 0.125; o.grtol = 0; o.gatol = 0;
  o.save_memory = vp_flip();
  o.stpmin = 0.015625; o.stpmax = 1024;
  opt = make_optimizer(&o, s, ls, box);
  vp_check(opt != NULL, "created");
  vx = opk_vcreate(s); vg = opk_vcreate(s); vw = opk_vcreate(s);
  x = DATA(vx); g = DATA(vg);
  k = (int)vp_pick(0, OPT >= 2 ? 3 : 0);
  for (i = 0; i < N; ++i) x[i] = start[k][i];
  t = START(opt, vx);
  for (k = 0; k <= PAIRS; ++k) {
    if (k < PAIRS) {
      int q = (int)vp_pick(k == 0 ? 0 : 1, k == 0 ? 1 : NG);
      for (i = 0; i < N; ++i) g[i] = grads[q][i];
      f = (k == 0 ? 4 : 2);
    } else {
#ifdef ONEVAR
      int q = (int)vp_pick(0, 1);
      g[q] = SYM();
      g[1 - q] = -1;
#else
      for (i = 0; i < N; ++i) g[i] = SYM();
#endif
      f = vp_flip() ? 0 : -2;
    }
    vp_check(t == OPK_TASK_COMPUTE_FG, "evaluation requested");
    if (k > 0) {
      for (i = 0; i < N; ++i) {
        ps[npairs][i] = x[i] - x0[i];
        py[npairs][i] = OPT == 3 ? (stuck(x[i], g[i]) ? 0 : g[i]) - g0[i] : g[i] - g0[i];
      }
      ++npairs;
    }
    t = ITERATE(opt, vx, f, vg);
    vp_check((t == OPK_TASK_NEW_X) | (t == OPK_TASK_FINAL_X), "step accepted");
    if (GET(gnorm) == 0) return 0;
    for (i = 0; i < N; ++i) { x0[i] = x[i]; g0[i] = (OPT == 3 && stuck(x[i], g[i])) ? 0 : g[i]; }
    direction(x0, g, f, &o, k == 0);
    t = ITERATE(opt, vx, f, vg);
    if (blocked) {
      vp_check(t == OPK_TASK_ERROR && GET(status) == OPK_WOULD_BLOCK, "no feasible step");
      return 0;
    }
    vp_check(GET(restarts) == restarts, "number of restarts");
    if (smin > step) {
      vp_check(t == OPK_TASK_ERROR, "step too small");
#if OPT >= 2
      vp_reach("step too small");
#endif
      return 0;
    }
    vp_check_eq(a_slope0, slope, "directional derivative");
    vp_check(t == OPK_TASK_COMPUTE_FG, "search started");
    vp_check_eq(a_step0, step, "initial step");
    vp_check_eq(a_min, smin, "smallest step");
    vp_check_eq(a_max, smax, "largest step");
    trial(x1, x0, step);
    for (i = 0; i < N; ++i) vp_check_eq(x[i], x1[i], "trial point");
    {
      /* memorized pairs */
      long mp = opk_get_vmlmb_mp(opt), most = npairs < MEM ? npairs : MEM, j;
      vp_check(mp <= most && mp >= (o.save_memory && most == MEM ? MEM - 1 : most), "number of memorized pairs");
      for (j = 1; j <= mp; ++j) {
        opk_vector *vs = opk_get_vmlmb_s(opt, j), *vy = opk_get_vmlmb_y(opt, j);
        vp_check(vs != NULL && vy != NULL, "memorized pair");
        for (i = 0; i < N; ++i) { vp_check_eq(DATA(vs)[i], ps[npairs - j][i], "memorized change of variables"); vp_check_eq(DATA(vy)[i], py[npairs - j][i], "memorized change of gradient"); }
        if (MEM > 1) vp_reach("memorized pair");
      }
      vp_check(opk_get_vmlmb_s(opt, mp + 1) == NULL && opk_get_vmlmb_y(opt, mp + 1) == NULL && opk_get_vmlmb_s(opt, -1) == NULL && opk_get_vmlmb_y(opt, -1) == NULL, "no such pair");
    }
  }
  /* one more step */
  a_more = 1; a_next = step*0.75;
  if (a_next < smin) return 0;
  for (i = 0; i < N; ++i) g[i] = grads[1][i];
  slope = 0;
  for (i = 0; i < N; ++i) slope += (x[i] - x0[i])*g[i]/step;
  t = ITERATE(opt, vx, 1, vg);
  vp_check(t == OPK_TASK_COMPUTE_FG, "search goes on");
  vp_check_eq(a_slope, slope, "directional derivative of the trial");
  trial(x1, x0, a_next);
  for (i = 0; i < N; ++i) vp_check_eq(x[i], x1[i], "next trial point");
  vp_reach("shorter step");
  return 0;
}
