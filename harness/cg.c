/* Linear conjugate gradients (TR 0) and trust region conjugate gradients
   (TR 1): every step against the mathematical definition. */
#include "la.h"
#define N 2
#ifndef ITERS
# define ITERS (N + 1)
#endif
static const elt mats[4][N][N] = { { { 2, 1 }, { 1, 3 } }, { { 2, 0 }, { 0, 2 } }, { { 1, 2 }, { 2, -1 } }, { { -1, 0 }, { 0, -3 } } };
static const elt prec[3][N] = { { 1, 0.25 }, { 1, -2 }, { 0.5, 0.5 } };
static elt b[N], x[N], r[N], p[N], q[N], zbuf[N], *z, xp[N], rp[N], pp[N];
static const elt (*A)[N];
static elt rho[5];

static double dot(const elt* u, const elt* v) { double t = 0; int i; for (i = 0; i < N; ++i) t += (double)u[i]*v[i]; return t; }
static void mult(elt* d, const elt* v) { int i, j; for (i = 0; i < N; ++i) { double t = 0; for (j = 0; j < N; ++j) t += (double)A[i][j]*v[j]; d[i] = t; } }
static void residuals(void) { elt t[N]; int i; mult(t, x); for (i = 0; i < N; ++i) vp_check_eq(r[i], b[i] - t[i], "residuals"); }

int main(void)
{
  opk_cg_state st, was;
  int k, i, c, steps = 0, pre = 0, mode;
  elt delta = 0;
  A = mats[vp_pick(0, 3)];
  k = (int)vp_pick(0, 1);
#ifndef SYMDELTA
  b[k] = SYM();
  vp_assume((b[k] >= -50) & (b[k] <= 50));
#endif
  b[1 - k] = 1;
  c = (int)vp_pick(0, 3) - 1;
  z = c < 0 ? NULL : zbuf;
#if TR
# ifdef SYMDELTA
  { static const elt bs[4] = { 3, -1, -3, 0.5 }; b[k] = bs[vp_pick(0, 3)]; }
  delta = SYM(); vp_assume((delta >= -1) & (delta <= 50));
# else
  delta = vp_flip() ? 2 : 0.5;
# endif
#else
  if (z != NULL && vp_flip()) z = q;
#endif
  mode = (int)vp_pick(0, 3);
  st = mode == 0 ? OPK_CG_START : OPK_CG_RESTART;
  for (i = 0; i < N; ++i) { r[i] = b[i]; x[i] = mode == 1 ? 0 : i ? 1 : -0.75; p[i] = 3; q[i] = 7; }
  for (i = 0; i < 5; ++i) rho[i] = 11;
  if (mode == 2) { x[0] = 1.5; x[1] = -2; }
  for (k = 0; k < 3*ITERS + 3; ++k) {
#if TR && !defined(SYMDELTA)
    if (steps > 0) break;
#endif
    was = st;
    for (i = 0; i < N; ++i) { xp[i] = x[i]; rp[i] = r[i]; }
#if TR
    F(trcg)(N, p, q, r, x, z, delta, rho, &st);
#else
    if (z == NULL && (mode & 1)) F(lcg)(N, p, q, r, x, rho, &st);
    else F(plcg)(N, p, q, r, x, z, rho, &st);
#endif
#if TR
    if (delta <= 0) { vp_check(st == OPK_CG_ERROR, "radius must be positive"); break; }
#endif
    switch (was) {
    case OPK_CG_START:
      vp_check(st == OPK_CG_NEWX, "started");
      for (i = 0; i < N; ++i) xp[i] = 0;
      goto first;
    case OPK_CG_RESTART:
#if TR
      if (dot(xp, xp) >= (double)delta*delta) {
        double nx = sqrt(dot(xp, xp));
        vp_check(st == OPK_CG_TRUNCATED, "initial point is truncated");
        for (i = 0; i < N; ++i) vp_check_eq(x[i]*nx, xp[i]*delta, "initial point is truncated");
        vp_check_eq(rho[4], delta, "norm");
        vp_reach("initially truncated");
        return 0;
      }
#endif
      vp_check(st == OPK_CG_AP, "initial residuals are needed");
      for (i = 0; i < N; ++i) { vp_check_eq(p[i], xp[i], "initial point"); vp_check_eq(x[i], xp[i], "initial point"); vp_check_eq(r[i], b[i], "right hand side"); }
      mult(q, p);
      /* next call */
      was = st;
#if TR
      F(trcg)(N, p, q, r, x, z, delta, rho, &st);
#else
      F(plcg)(N, p, q, r, x, z, rho, &st);
#endif
      vp_check(st == OPK_CG_NEWX, "started");
    first:
      for (i = 0; i < N; ++i) vp_check_eq(x[i], xp[i], "initial point");
      residuals();
#if TR
      vp_check_eq(rho[4]*rho[4], dot(x, x), "norm");
#endif
      vp_reach("started");
      break;
    case OPK_CG_NEWX:
      if (z != NULL) {
        vp_check(st == OPK_CG_PRECOND, "preconditioned residuals are needed");
        for (i = 0; i < N; ++i) vp_check((x[i] == xp[i]) & (r[i] == rp[i]), "no change");
        for (i = 0; i < N; ++i) z[i] = prec[c][i]*r[i];
        pre = 1;
        break;
      } /* fall through */
    case OPK_CG_PRECOND:
      {
        elt zz[N];
        double rz;
        for (i = 0; i < N; ++i) { vp_check((x[i] == xp[i]) & (r[i] == rp[i]), "no change"); zz[i] = c < 0 ? r[i] : prec[c][i]*r[i]; }
        rz = dot(r, zz);
        if (rz > 0) {
          elt Ap[N];
          vp_check(st == OPK_CG_AP, "next direction");
          vp_check_eq(rho[1], rz, "scaled residuals");
          if (steps == 0) {
            for (i = 0; i < N; ++i) vp_check_eq(p[i], zz[i], "first direction");
            vp_check_eq(rho[3], 0, "first direction");
          } else {
            for (i = 0; i < N; ++i) vp_check_eq(p[i], zz[i] + rho[3]*pp[i], "direction");
            mult(Ap, pp);
            vp_check_eq(dot(p, Ap), 0, "conjugate directions");
#if !TR || defined(SYMDELTA)
            vp_reach("conjugate direction");
#endif
          }
          mult(q, p);
        } else if (rz < 0) {
          vp_check(st == OPK_CG_NON_CONVEX, "bad preconditioner");
          vp_reach("bad preconditioner");
        } else {
          vp_check(st == OPK_CG_FINISH, "solution");
          vp_reach("solution");
        }
      }
      break;
    case OPK_CG_AP:
      {
        elt Ap[N];
        double pq;
        int full;
        mult(Ap, p);
        pq = dot(p, Ap);
        full = pq > 0;
#if TR
        if (full) {
          double al = rho[1]/pq, t = 0;
          for (i = 0; i < N; ++i) t += (xp[i] + al*p[i])*(xp[i] + al*p[i]);
          t = sqrt(t); full = (t <= (double)delta);
          if (full) vp_check(st == (t < (double)delta ? OPK_CG_NEWX : OPK_CG_TRUNCATED), "step within the radius");
        }
#endif
        if (full) {
#if TR
          vp_check_eq(rho[4]*rho[4], dot(x, x), "norm");
#else
          vp_check(st == OPK_CG_NEWX, "step taken");
#endif
          vp_check_eq(rho[2]*pq, rho[1], "optimal step");
          for (i = 0; i < N; ++i) { vp_check_eq(x[i], xp[i] + rho[2]*p[i], "step along the direction"); vp_check_eq(r[i], rp[i] - rho[2]*q[i], "change of residuals"); pp[i] = p[i]; }
          residuals();
          vp_check_eq(dot(r, p), 0, "minimum along the direction");
          ++steps;
          vp_reach("full step");
        } else {
#if TR
          vp_check(st == OPK_CG_TRUNCATED, "truncated step");
          vp_check(rho[2] > 0, "forward step");
          for (i = 0; i < N; ++i) vp_check_eq(x[i], xp[i] + rho[2]*p[i], "step along the direction");
          vp_check_eq(dot(x, x), (double)delta*delta, "boundary of the trust region");
          vp_check_eq(rho[4], delta, "norm");
          residuals();
          vp_reach("truncated");
#else
          vp_check(st == OPK_CG_NON_CONVEX, "not positive definite");
          for (i = 0; i < N; ++i) vp_check((x[i] == xp[i]) & (r[i] == rp[i]), "no change");
          vp_reach("not positive definite");
#endif
        }
      }
      break;
    default:
      vp_check(st == was, "final state");
      for (i = 0; i < N; ++i) vp_check((x[i] == xp[i]) & (r[i] == rp[i]), "no change");
      vp_reach("after the end");
      k = 1000;
      break;
    }
    vp_check(steps <= N, "finite convergence");
    if (steps == N && st == OPK_CG_NEWX && TR == 0) { for (i = 0; i < N; ++i) vp_check_eq(r[i], 0, "exact solution"); }
  }
  if (pre) vp_reach("preconditioned");
  st = (opk_cg_state)99;
#if TR
  F(trcg)(N, p, q, r, x, z, 1, rho, &st);
#else
  F(plcg)(N, p, q, r, x, z, rho, &st);
#endif
  vp_check(st == OPK_CG_ERROR, "bad state");
  return 0;
}
