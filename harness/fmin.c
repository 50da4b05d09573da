/* Univariate minimization: opk_fmin, opk_fmin_with_context and the reverse
   communication version on arbitrary function values. */
#include "optimpack.h"
#include "vp.h"
typedef struct opk_fmin_context_ opk_fmin_context;
extern opk_fmin_context* opk_fmin_new(int method);
extern void opk_fmin_destroy(opk_fmin_context*);
extern opk_status opk_fmin_set_precision(opk_fmin_context*, double);
extern double opk_fmin_get_precision(opk_fmin_context*);
extern unsigned opk_fmin_get_flags(opk_fmin_context*);
extern opk_fmin_task opk_fmin_get_status(opk_fmin_context*);
extern opk_status opk_fmin_start(opk_fmin_context*, double a, double b, unsigned flags);
extern opk_status opk_fmin_get_initial(opk_fmin_context*, double* a, double* b, unsigned* flags);
extern opk_status opk_fmin_get_final(opk_fmin_context*, double*, double*, double*, double*, double*, double*, long*);
extern opk_fmin_task opk_fmin_next(opk_fmin_context*, double*, double);

#ifndef NE
# define NE 6
#endif
static double xs[64], fs[64];
static int n, again;
static double A, B;
static unsigned flags;

/* side of t with respect to an exclusive end of the interval */
static double eval(double t)
{
  double f;
  if (flags & OPK_FMIN_BOUNDED_BY_A) vp_check(A < B ? t > A : t < A, "strictly inside bound A");
  if (flags & OPK_FMIN_BOUNDED_BY_B) vp_check(A < B ? t < B : t > B, "strictly inside bound B");
  if (again) {
    /* same function for the other interfaces */
    vp_check(n < again, "no more evaluations");
    if (n >= again) vp_stop();
    vp_check_eq(t, xs[n], "same point");
    return fs[n++];
  }
  vp_assume(n <= NE);
  f = vp_dbl_in(-1000, 1000);
  xs[n] = t; fs[n++] = f;
  return f;
}
static double f1(double t) { return eval(t); }
static double f2(void* data, double t) { vp_check(data == (void*)xs, "client data"); return eval(t); }

static double mag(double t) { return t < 0 ? -t : t; }

int main(void)
{
  double out[7], o2[7], p, r;
  double x, lo, hi;
  long maxeval, least, last;
  int i, s, m;
  opk_fmin_context* c;
  opk_fmin_task t;
#ifdef SYMAB
  A = vp_dbl_in(-100, 100); B = vp_dbl_in(-100, 100); vp_assume(A != B);
  p = vp_dbl_in(0, 1);
  if (vp_flip()) vp_assume(A < B); else vp_assume(A > B);
#else
  static const double as[4] = { 0, 1, -2, 1 }, bs[4] = { 1, -3, 1e-3, 2 }, ps[3] = { 0.5, 0.125, 0 };
  i = (int)vp_pick(0, 3); A = as[i]; B = bs[i];
  p = ps[vp_pick(0, 2)];
#endif
  flags = (unsigned)vp_pick(0, 3);
  least = 3 - (flags & 1) - (flags >> 1);
  maxeval = vp_pick(-1, NE);
#ifdef SYMAB
  vp_assume(maxeval >= 0);
#else
  vp_assume((maxeval >= 0) | (p == 0.5));
#endif
  for (i = 0; i < 7; ++i) out[i] = -12345;
  s = opk_fmin(f1, A, B, flags, maxeval, p, out);
  /* result */
  vp_check(s == 0 || s == 1 || s == 2, "status");
  vp_check(out[6] == n, "number of evaluations");
  vp_check(n >= least, "least number of evaluations");
  vp_check(maxeval < 0 || n <= (maxeval > least ? maxeval : least), "maximum number of evaluations");
  vp_check(s == 0 || n >= maxeval, "does not give up before");
  x = out[0]; lo = out[1]; hi = out[2];
  for (m = 0; m < 3; ++m) {
    /* the values are those of the function */
    int ok = 0;
    for (i = 0; i < n; ++i) ok |= (out[m] == xs[i]) & (out[m+3] == fs[i]);
    if (flags & OPK_FMIN_BOUNDED_BY_A) ok |= (m != 0) & (out[m] == A);
    if (flags & OPK_FMIN_BOUNDED_BY_B) ok |= (m != 0) & (out[m] == B);
    vp_check(ok, "value of the function");
  }
  if (s == 2) {
    for (i = 0; i < n; ++i) vp_check((out[3] <= fs[i]) | (out[4] <= fs[i]) | (out[5] <= fs[i]), "best point is kept");
    vp_check((lo - x)*(hi - x) < 0, "middle point");
    vp_reach("not bracketed");
  } else {
    vp_check((lo < x) & (x < hi), "bracket");
    for (i = 0; i < n; ++i) vp_check(out[3] <= fs[i], "best point is returned");
    for (i = 0; i < n; ++i) vp_check((xs[i] <= lo) | (xs[i] == x) | (xs[i] >= hi), "nothing known inside the bracket");
    r = mag(x);
    if (mag(lo) > r) r = mag(lo);
    if (mag(hi) > r) r = mag(hi);
    r *= p;
    { double w = (x - lo > hi - x ? x - lo : hi - x);
      vp_check((s == 0) == (w <= r), "convergence when the precision is reached"); }
    if (s == 0) vp_reach("converged"); else vp_reach("bracketed");
  }
  {
    double w = hi > lo ? hi - lo : lo - hi, y = x - lo;
    double q = mag(y);
    if (q > w/2) q = w - q;
    vp_check_le(mag(q - 0.3819660112501051*w), 1e-9*w, "golden section");
  }
  /* other interfaces */
  again = n; n = 0;
  vp_check(opk_fmin_with_context(f2, A, B, flags, maxeval, p, o2, xs) == s, "same status");
  vp_check(n == again, "same number of evaluations");
  for (i = 0; i < 7; ++i) vp_check_eq(o2[i], out[i], "same result");
  n = 0;
  c = opk_fmin_new(0);
  vp_check(c != NULL, "created");
  { double y = 7; vp_check(opk_fmin_next(c, &y, 0) == OPK_FMIN_ERROR && opk_fmin_get_status(c) == OPK_FMIN_ERROR, "not started"); }
  vp_check(opk_fmin_set_precision(c, -0.5) == OPK_INVALID_ARGUMENT, "negative precision");
  vp_check(opk_fmin_get_precision(c) > 1e-8 && opk_fmin_get_precision(c) < 2e-8, "default precision");
  vp_check(opk_fmin_set_precision(c, p) == OPK_SUCCESS && opk_fmin_get_precision(c) == p, "precision");
  vp_check(opk_fmin_start(c, A, A, flags) == OPK_INVALID_ARGUMENT, "empty interval");
  vp_check(opk_fmin_start(c, A, B, flags) == OPK_SUCCESS, "started");
  vp_check(opk_fmin_get_flags(c) == flags && opk_fmin_get_status(c) == OPK_FMIN_START, "started");
  { double a = 5, b = 6; unsigned q = 77; vp_check(opk_fmin_get_initial(c, &a, &b, &q) == OPK_SUCCESS && a == A && b == B && q == flags, "initial interval"); }
  {
    double y = -1, fy = -7;
    for (;;) {
      t = opk_fmin_next(c, &y, fy);
      vp_check(t == opk_fmin_get_status(c), "status");
      if (t != OPK_FMIN_FX || n >= again) break;
      fy = eval(y);
    }
    vp_check(n == again, "same number of evaluations");
    vp_check((t == OPK_FMIN_CONVERGENCE) == (s == 0) && t != OPK_FMIN_ERROR, "same outcome");
    if (t == OPK_FMIN_CONVERGENCE) {
      last = -1;
      vp_check(opk_fmin_get_final(c, &o2[0], &o2[1], &o2[2], &o2[3], &o2[4], &o2[5], &last) == OPK_SUCCESS, "final");
      vp_check(last == n, "number of evaluations");
      for (i = 0; i < 6; ++i) vp_check_eq(o2[i], out[i], "same result");
      /* continue with a better precision */
      vp_check(opk_fmin_set_precision(c, 0) == OPK_SUCCESS, "precision");
      t = opk_fmin_next(c, &y, fy);
      vp_check(t == OPK_FMIN_FX, "goes on");
      vp_check((y > lo) & (y < hi) & (y != x), "new point inside the bracket");
      opk_fmin_get_final(c, NULL, NULL, NULL, NULL, NULL, NULL, &last);
      vp_check(last == n, "number of evaluations");
      vp_reach("continued");
    } else {
      double z = y + 1;
      vp_check(opk_fmin_next(c, &z, fy) == OPK_FMIN_ERROR, "variable must not be changed");
      vp_reach("interrupted");
    }
  }
  opk_fmin_destroy(c);
  vp_check(vp_live() == 0, "nothing leaks");
  /* errors */
  errno = 0; n = 0; again = -1;
  vp_check(opk_fmin(f1, A, A, flags, maxeval, p, o2) == -1 && errno == EINVAL && n == 0, "empty interval");
  errno = 0;
  vp_check(opk_fmin_with_context(f2, B, B, flags, maxeval, p, o2, xs) == -1 && errno == EINVAL && n == 0, "empty interval");
  return 0;
}
