/* NEWUOA (ALG 1) and BOBYQA (ALG 2): arguments, points of the initial model,
   bounds, limits and result for arbitrary objective values, and the same run
   through the other interfaces. */
#include "newuoa.h"
#include "bobyqa.h"
#include "vp.h"
#define N 2
#define K 16
static double xs[K][N], fs[K], scl[N], sgn = 1, x0[N], lo[N] = { -DBL_MAX, -DBL_MAX }, up[N] = { DBL_MAX, DBL_MAX };
static double ulo[N], uup[N]; /* bounds of the user */
static const double rhobeg = 0.5;
static double rhoend = 0.0625;
static int count, total = -1, inner;
static long limit, npt;
static double last;
static double objfun(const opk_index n, const double* x, void* data)
{
  int i;
  vp_check(n == N && data == (void*)xs, "arguments of the objective function");
#if ALG == 2
  for (i = 0; i < N; ++i) vp_check((x[i] >= ulo[i]) & (x[i] <= uup[i]), "inside the bounds");
#endif
  if (total >= 0) {
    vp_check(count < total, "same number of evaluations");
    if (count >= total) vp_stop();
    for (i = 0; i < N; ++i) vp_check_eq(x[i], scl[i]*xs[count][i], "same points");
    return last = sgn*fs[count++];
  }
  vp_check(count < limit, "limit on the number of evaluations");
  if (count >= K) vp_stop();
  for (i = 0; i < N; ++i) xs[count][i] = x[i];
#ifdef RUN
  { /* quadratic function and perturbations */
    static const double pert[3] = { 0, -1.5, 2 };
    double u = x[0] - 0.75, v = x[1] + 1.25;
    fs[count] = 2*u*u + u*v + v*v + (count >= PICK0 && count < PICK1 ? pert[vp_pick(0, 2)] : 0);
  }
#else
  fs[count] = vp_finite();
#endif
  if (inner) {
    /* unless the bounds interfere */
    int j = count <= N ? count - 1 : count - N - 1;
    if (count >= npt) ;
    else if (count <= 2*N) for (i = 0; i < N; ++i) vp_check_eq(x[i], count == 0 || i != j ? x0[i] : count <= N ? x0[i] + rhobeg : x0[i] - rhobeg, "initial points");
    else {
#if ALG == 1
      for (i = 0; i < N; ++i) vp_check_eq(x[i], fs[1 + N + i] < fs[1 + i] ? x0[i] - rhobeg : x0[i] + rhobeg, "initial points");
#endif
#ifdef RUN
      vp_reach("last initial point");
#endif
    }
  }
  return last = fs[count++];
}

int main(void)
{
  double x[N], xr[N];
  double *w;
  size_t nw;
  int i, k, st, s2, b;
#ifdef RUN
  npt = vp_pick(4, 6);
  limit = K;
  if (vp_flip()) { limit = npt + 2; rhoend = 0.25; }
  x0[0] = 0.25; x0[1] = -1;
  inner = 1;
# if ALG == 2
  switch (vp_pick(0, 2)) {
  case 0: for (i = 0; i < N; ++i) { lo[i] = -2.5; up[i] = 2; } break;
  case 1: inner = 0; for (i = 0; i < N; ++i) { lo[i] = -1.125; up[i] = 0.5; } break;
  default: inner = 0; for (i = 0; i < N; ++i) { lo[i] = i ? -1 : 0; up[i] = i ? 0.25 : 1; } break;
  }
# endif
#else
#ifndef SCALE
  npt = vp_pick(4, 6);
  limit = vp_pick(1, npt - 1);
#endif
#ifdef SCALE
  for (i = 0; i < N; ++i) x0[i] = i ? -150 : 200; /* on a bound */
  limit = 1; npt = 4;
#else
# if ALG == 1
  for (i = 0; i < N; ++i) x0[i] = vp_dbl_in(-100, 100);
# else
  for (i = 0; i < N; ++i) x0[i] = i ? 2 : -1;
# endif
#endif
# if ALG == 2
  k = (int)vp_pick(0, N - 1);
  for (i = 0; i < N; ++i) { lo[i] = i ? -200 : -99.75; up[i] = i ? 99.75 : 150; }
  switch (vp_pick(0, 2)) {
#ifdef SCALE
  case 0: if (k == 0) return 0; lo[k] = 1 + (double)vp_range(0, 255)/256; break;
  case 1: if (k != 0) return 0; up[k] = 1 + (double)vp_range(0, 255)/256; break;
#else
  case 0: lo[k] = vp_dbl_in(-100, 100); break;
  case 1: up[k] = vp_dbl_in(-100, 100); break;
#endif
  default:
#ifdef SCALE
    return 0;
#endif
    lo[k] = -1.5; up[k] = 0.375; x0[k] = vp_dbl_in(-100, 100);
  }
  vp_assume(up[k] > lo[k]);
# ifndef SCALE
  inner = vp_flip();
# endif
  if (inner) vp_assume((lo[k] < x0[k] - rhobeg) & (lo[k] - x0[k] < -rhobeg) & (up[k] > x0[k] + rhobeg) & (up[k] - x0[k] > rhobeg));
# else
  inner = 1;
# endif
#endif
  for (i = 0; i < N; ++i) { x[i] = x0[i]; ulo[i] = lo[i]; uup[i] = up[i]; scl[i] = 1; }
#if ALG == 1
  nw = (npt + 13)*(npt + N) + 3*N*(N + 3)/2;
#else
  nw = (npt + 5)*(npt + N) + 3*N*(N + 5)/2;
#endif
  w = malloc(nw*sizeof(double));
#ifdef SCALE
  for (i = 0; i < N; ++i) scl[i] = i ? 7 : 10;
  w = realloc(w, (nw + 3*N)*sizeof(double));
  inner = 0;
  st = bobyqa_optimize(N, npt, 0, objfun, (void*)xs, x, lo, up, scl, rhobeg, rhoend, 0, limit, w);
#elif ALG == 1
  st = newuoa(N, npt, objfun, (void*)xs, x, rhobeg, rhoend, 0, limit, w);
#else
  st = bobyqa(N, npt, objfun, (void*)xs, x, lo, up, rhobeg, rhoend, 0, limit, w);
#endif
#if ALG == 2
# ifndef SCALE
  for (b = 0, i = 0; i < N; ++i) b = b | (up[i] - lo[i] < 2*rhobeg);
  vp_check((st == BOBYQA_TOO_CLOSE) == b, "space between the bounds");
# endif
  if (st == BOBYQA_TOO_CLOSE) {
    vp_check(count == 0, "no evaluations");
    for (i = 0; i < N; ++i) vp_check_eq(x[i], x0[i], "untouched");
    
#if !defined(RUN) && !defined(SCALE)
    vp_reach("too close");
#endif
    return 0;
  }
#endif
  vp_check(count >= 1, "evaluated");
  if (st == (ALG == 1 ? (int)NEWUOA_TOO_MANY_EVALUATIONS : (int)BOBYQA_TOO_MANY_EVALUATIONS)) { vp_check(count == limit, "too many evaluations"); vp_reach("too many evaluations"); }
#ifdef RUN
  else vp_check(st == 0, "status");
  if (st == 0) { vp_check(count >= npt, "model"); vp_reach("success"); }
#else
  else vp_check(0, "status");
#endif
  for (b = 0, k = 1; k < count; ++k) if (fs[k] < fs[b]) b = k;
#ifdef RUN
  { /* the best point, up to rounding errors */
    for (i = 0; i < N; ++i) vp_check(fabs(x[i] - xs[b][i]) < 1e-9, "best point");
# if ALG == 2
    for (i = 0; i < N; ++i) vp_check((x[i] >= lo[i]) & (x[i] <= up[i]), "inside the bounds");
# endif
  }
#else
  for (i = 0; i < N; ++i) vp_check_eq(x[i], xs[b][i], "best point");
#endif
  if (st == 0 || ALG == 1) vp_check(w[0] == fs[b], "best value");
#ifdef SCALE
  return 0;
#endif
  total = count; count = 0;
  for (i = 0; i < N; ++i) xr[i] = x0[i];
#ifdef RUN
  switch (vp_pick(0, 2)) {
#else
  switch (2*vp_pick(0, 1)) {
#endif
  case 0:
    sgn = -1;
#if ALG == 1
    s2 = newuoa_optimize(N, npt, 1, objfun, (void*)xs, xr, NULL, rhobeg, rhoend, 0, limit, w);
#else
    s2 = bobyqa_optimize(N, npt, 1, objfun, (void*)xs, xr, lo, up, NULL, rhobeg, rhoend, 0, limit, w);
#endif
    if (st == 0) vp_check(w[0] == -fs[b], "best value");
    vp_reach("maximize");
    break;
#ifdef RUN
  case 1:
    w = realloc(w, (nw + (ALG == 1 ? N : 3*N))*sizeof(double));
    for (i = 0; i < N; ++i) { scl[i] = i ? 0.25 : 4; xr[i] *= scl[i]; ulo[i] *= scl[i]; uup[i] *= scl[i]; }
#if ALG == 1
    s2 = newuoa_optimize(N, npt, 0, objfun, (void*)xs, xr, scl, rhobeg, rhoend, 0, limit, w);
#else
    s2 = bobyqa_optimize(N, npt, 0, objfun, (void*)xs, xr, ulo, uup, scl, rhobeg, rhoend, 0, limit, w);
#endif
    if (st == 0) vp_check(w[0] == fs[b], "best value");
    vp_reach("scaling");
    break;
#endif
  default:
#if ALG == 1
    { newuoa_context* ctx = newuoa_create(N, npt, rhobeg, rhoend, 0, limit);
      double r, rlast = rhobeg, f;
      int pass;
      vp_check(ctx != NULL, "created");
      for (pass = 0; pass < 2; ++pass) {
        count = 0;
        vp_check(newuoa_get_status(ctx) == NEWUOA_ITERATE && newuoa_get_nevals(ctx) == 0 && newuoa_get_rho(ctx) == 0, "ready");
        for (i = 0; i < N; ++i) xr[i] = x0[i];
        rlast = rhobeg;
        do {
          f = objfun(N, xr, (void*)xs);
          s2 = newuoa_iterate(ctx, f, xr);
          vp_check((int)newuoa_get_status(ctx) == s2 && newuoa_get_nevals(ctx) == count, "state");
          r = newuoa_get_rho(ctx);
          vp_check((r <= rlast) & (r >= rhoend), "rho decreases");
          rlast = r;
        } while (s2 == NEWUOA_ITERATE);
        if (s2 == 0) vp_check(rlast == rhoend, "final rho");
        vp_check(newuoa_iterate(ctx, f, xr) == NEWUOA_CORRUPTED && newuoa_get_status(ctx) == NEWUOA_CORRUPTED, "finished");
        vp_check(newuoa_restart(ctx) == NEWUOA_ITERATE, "restart");
      }
      newuoa_delete(ctx);
      vp_reach("reverse communication"); }
#else
    return 0;
#endif
  }
  vp_check(count == total && s2 == st, "same run");
  for (i = 0; i < N; ++i) vp_check_eq(xr[i], scl[i]*x[i], "same result");
  free(w);
  vp_check(vp_live() == 0 && vp_outputs() == 0, "nothing leaks or is printed");
  return 0;
}
