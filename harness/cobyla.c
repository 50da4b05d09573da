/* COBYLA: points, limits and result of a run on arbitrary objective and
   constraint values, then the same run through the other interfaces. */
#include "cobyla.h"
#include "vp.h"
#ifndef N
# define N 1
#endif
#ifndef M
# define M 0
#endif
#ifndef K
# define K 4
#endif
static double xs[K][N], fs[K], cs[K][M + 1], viol[K], scl[N], sgn = 1;
static int count, total = -1;
static long limit;
static const double x0[3] = { 0.5, -1, 2 };
static double rhobeg = 1, rhoend;

static double value(int k, int con)
{
#ifdef PICK
# ifndef FROM
#  define FROM 0
# endif
  static const double v[4] = { 0, 3, -2, 5 };
  static int npick[2];
  if (con || k >= PICK || k < FROM) return v[(npick[con]++ < (con ? 3 : FROM ? 4 : 2) ? vp_pick(0, con ? 1 : 2) : k & 1) + con] + 0.125*k;
#endif
  (void)k; (void)con;
  return vp_dbl_in(-8, 8);
}
static double fc(opk_index n, opk_index m, const double x[], double con[], void* data)
{
  int i, k;
  vp_check(n == N && m == M && data == (void*)xs, "arguments of the objective function");
  if (total >= 0) { /* same run */
    vp_check(count < total, "same number of evaluations");
    if (count >= total) vp_stop();
    for (i = 0; i < N; ++i) vp_check_eq(x[i], scl[i]*xs[count][i], "same points");
    for (k = 0; k < M; ++k) con[k] = cs[count][k];
    return sgn*fs[count++];
  }
  vp_check(count < limit, "limit on the number of evaluations");
  if (count >= K) vp_stop();
  for (i = 0; i < N; ++i) xs[count][i] = x[i];
  fs[count] = value(count, 0);
  viol[count] = 0;
  for (k = 0; k < M; ++k) {
    con[k] = cs[count][k] = value(count, 1);
    if (-con[k] > viol[count]) viol[count] = -con[k];
  }
  /* initial simplex */
  if (count == 0) for (i = 0; i < N; ++i) vp_check_eq(x[i], x0[i], "starting point");
  else if (count <= N) {
    int b = 0;
    for (k = 1; k < count; ++k) if (fs[k] < fs[b]) b = k;
    for (i = 0; i < N; ++i) vp_check_eq(x[i], xs[b][i] + (i == count - 1 ? rhobeg : 0), "initial simplex");
  } else {
    /* within the trust region (or a vertex of the simplex) */
#if N == 1
    int ok = 0;
    for (k = 0; k < count; ++k) ok = ok | ((x[0] - xs[k][0] <= rhobeg*1.00001) & (xs[k][0] - x[0] <= rhobeg*1.00001));
    vp_check(ok, "inside the trust region");
#endif
    vp_reach("trust region step");
  }
  return fs[count++];
}

int main(void)
{
  double x[N], xr[N], f, v;
  size_t nw = N*(3*N + 2*M + 11) + 4*M + 6;
  double* w = malloc(nw*sizeof(double));
  opk_index* ia = malloc((M + 1)*sizeof(opk_index));
  cobyla_status st, s2;
  cobyla_context* ctx;
  int i, k, ok, pass;
  static const double ends[4] = { 1, 0.5, 0.375, 0.25 };
  rhoend = ends[vp_pick(0, 2)];
  limit = K;
  if (rhoend == 0.5) {
#ifdef PICK
    if (vp_flip()) limit = 2 + vp_pick(0, 1)*(K - 3);
#else
    limit = vp_pick(1, K);
#endif
  }
  for (i = 0; i < N; ++i) x[i] = x0[i];
  st = cobyla(N, M, fc, (void*)xs, x, rhobeg, rhoend, 0, limit, w, ia);
  vp_check(st == COBYLA_SUCCESS || st == COBYLA_TOO_MANY_EVALUATIONS || st == COBYLA_ROUNDING_ERRORS, "status");
  vp_check(ia[0] == count && count >= 1, "number of evaluations");
  if (st == COBYLA_TOO_MANY_EVALUATIONS) { vp_check(count == limit, "too many evaluations"); vp_reach("too many evaluations"); }
  if (st == COBYLA_SUCCESS) vp_reach("success");
  for (ok = 0, k = 0; k < count; ++k) {
    int same = (w[0] == fs[k]) & (w[1] == viol[k]);
    for (i = 0; i < N; ++i) same = same & (x[i] == xs[k][i]);
    ok = ok | same;
  }
  vp_check(ok, "the result is an evaluated point with its value");
  if (M == 0 && st == COBYLA_TOO_MANY_EVALUATIONS) for (k = 0; k < count; ++k) vp_check(w[0] <= fs[k], "best point");
  f = w[0]; v = w[1];
  total = count;
  for (i = 0; i < N; ++i) scl[i] = 1;
  switch (vp_pick(0, 2)) {
  case 0: /* maximize */
    sgn = -1; count = 0;
    for (i = 0; i < N; ++i) xr[i] = x0[i];
    s2 = cobyla_optimize(N, M, 1, fc, (void*)xs, xr, NULL, rhobeg, rhoend, 0, limit, w, ia);
    vp_check_eq(w[0], -f, "maximized"); vp_check_eq(w[1], v, "violation");
    vp_check(ia[0] == total, "number of evaluations");
    vp_reach("maximize");
    break;
  case 1: /* scaling */
    count = 0;
    for (i = 0; i < N; ++i) { scl[i] = i ? 0.25 : 4; xr[i] = x0[i]*scl[i]; }
    s2 = cobyla_optimize(N, M, 0, fc, (void*)xs, xr, scl, rhobeg, rhoend, 0, limit, w, ia);
    vp_check_eq(w[0], f, "value"); vp_check_eq(w[1], v, "violation");
    vp_check(ia[0] == total, "number of evaluations");
    vp_reach("scaling");
    break;
  default: /* reverse communication, twice */
    ctx = cobyla_create(N, M, rhobeg, rhoend, 0, limit);
    vp_check(ctx != NULL, "created");
    for (pass = 0; pass < 2; ++pass) {
      double r, rlast = rhobeg;
      vp_check(cobyla_get_status(ctx) == COBYLA_ITERATE, "ready");
      vp_check(cobyla_get_rho(ctx) == 0, "rho before the first iteration");
      for (i = 0; i < N; ++i) xr[i] = x0[i];
      count = 0;
      do {
        double c[M + 1], fx;
        vp_check(cobyla_get_nevals(ctx) == count, "number of evaluations");
        fx = fc(N, M, xr, c, (void*)xs);
        s2 = cobyla_iterate(ctx, fx, xr, M > 0 || pass ? c : NULL);
        vp_check(cobyla_get_status(ctx) == s2, "status");
        r = cobyla_get_rho(ctx);
        vp_check((r <= rlast) & (r >= rhoend), "rho decreases");
        rlast = r;
        if (s2 == COBYLA_ITERATE) vp_check_eq(cobyla_get_last_f(ctx), fx, "last value");
      } while (s2 == COBYLA_ITERATE);
      vp_check(cobyla_get_nevals(ctx) == count && count == total, "number of evaluations");
      vp_check_eq(cobyla_get_last_f(ctx), f, "value at the solution");
      for (i = 0; i < N; ++i) vp_check_eq(xr[i], x[i], "same result");
      vp_check(s2 == st, "same status");
      if (s2 == COBYLA_SUCCESS) vp_check(rlast == rhoend, "final rho");
      if (pass == 0) {
        double c[M + 1];
        for (i = 0; i < M; ++i) c[i] = 0;
        vp_check(cobyla_iterate(ctx, 0, xr, c) == COBYLA_CORRUPTED && cobyla_get_status(ctx) == COBYLA_CORRUPTED, "finished");
        for (i = 0; i < N; ++i) vp_check_eq(xr[i], x[i], "untouched");
      }
      vp_check(cobyla_restart(ctx) == COBYLA_ITERATE, "restart");
    }
    cobyla_delete(ctx);
    vp_reach("reverse communication");
    break;
  }
  vp_check(s2 == st, "same status");
  for (i = 0; i < N; ++i) vp_check_eq(xr[i], scl[i]*x[i], "same result");
  free(w); free(ia);
  vp_check(vp_live() == 0, "nothing leaks");
  vp_check(vp_outputs() == 0, "nothing printed");
  return 0;
}
