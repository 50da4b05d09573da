/* Operations of the box sets of the built-in spaces.
   OP 0: projection of variables; 1: projection of a direction; 2: free
   variables; 3: step limits (ideal arithmetic). */
#include "box.h"

static int same(elt a, elt b) { return a == b; }

int main(void)
{
  opk_vspace* s = NEWSPACE(N);
  opk_bound_type tl = (opk_bound_type)vp_pick(0, 7);
  opk_bound_type tu = (opk_bound_type)vp_pick(0, 7);
  opk_convexset* box = make_box(s, tl, tu);
  opk_vector* vx = opk_vcreate(s);
  opk_vector* vd = opk_vcreate(s);
  opk_vector* vr = opk_vcreate(s);
  elt x[N], d[N];
  elt *px = DATA(vx), *pd = DATA(vd), *pr = DATA(vr);
  int i, alias, orient;
  opk_status st;
  for (i = 0; i < N; ++i) {
    px[i] = x[i] = SYM();
    vp_assume(!VP_ISNAN(x[i]));
    pr[i] = SYM();
  }
#if OP == 0
  vp_check(opk_can_project_variables(box), "projection available");
  alias = vp_flip();
  if (alias) { vr = vx; pr = px; }
  st = opk_project_variables(vr, vx, box);
  vp_check(st == OPK_SUCCESS, "projection succeeds");
  for (i = 0; i < N; ++i) {
    elt r = pr[i], e = x[i];
    vp_check((!haslo | (r >= lo[i])) & (!hashi | (r <= hi[i])), "projected variables are feasible");
    if (haslo && e < lo[i]) e = lo[i];
    else if (hashi && e > hi[i]) e = hi[i];
    vp_check(same(r, e), "projection gives the closest feasible variables");
    if (!alias) vp_check(same(px[i], x[i]), "input variables unchanged");
  }
  /* idempotence */
  st = opk_project_variables(vx, vr, box);
  vp_check(st == OPK_SUCCESS, "projection succeeds");
  for (i = 0; i < N; ++i) vp_check(same(px[i], pr[i]), "projection is idempotent");
#else
  for (i = 0; i < N; ++i) {
    pd[i] = d[i] = SYM();
    vp_assume(!VP_ISNAN(d[i]));
    if (haslo) vp_assume(lo[i] <= x[i]);
    if (hashi) vp_assume(x[i] <= hi[i]);
  }
  orient = vp_flip() ? OPK_DESCENT : OPK_ASCENT;
# ifdef VP_REAL
  /* moderate values: no overflow of the step lengths */
  for (i = 0; i < N; ++i) {
    vp_assume((x[i] >= -1e3) & (x[i] <= 1e3) & (d[i] >= -1e3) & (d[i] <= 1e3));
    vp_assume((d[i] == 0) | (d[i] >= 1e-3) | (d[i] <= -1e-3));
    if (haslo) vp_assume(lo[i] >= -1e3);
    if (hashi) vp_assume(hi[i] <= 1e3);
  }
# endif
#endif
#if OP == 1
  vp_check(opk_can_project_directions(box), "projection available");
  alias = (int)vp_pick(0, 1);
  if (alias == 1) { vr = vd; pr = pd; }
  st = opk_project_direction(vr, vx, box, vd, orient);
  vp_check(st == OPK_SUCCESS, "projection succeeds");
  for (i = 0; i < N; ++i) {
    int up = (orient > 0 ? d[i] > 0 : d[i] < 0);
    int dn = (orient > 0 ? d[i] < 0 : d[i] > 0);
    int blocked = (dn && haslo && x[i] <= lo[i]) || (up && hashi && x[i] >= hi[i]);
    vp_check(same(pr[i], blocked ? 0 : d[i]), "blocked components are zeroed, others kept");
    vp_check(same(px[i], x[i]), "variables unchanged");
    if (!alias) vp_check(same(pd[i], d[i]), "direction unchanged");
  }
#elif OP == 2
  vp_check(opk_can_get_free_variables(box), "free variables available");
  st = opk_get_free_variables(vr, vx, box, vd, orient);
  vp_check(st == OPK_SUCCESS, "free variables succeeds");
  for (i = 0; i < N; ++i) {
    int up = (orient > 0 ? d[i] > 0 : d[i] < 0);
    int dn = (orient > 0 ? d[i] < 0 : d[i] > 0);
    int blocked = (dn && haslo && x[i] <= lo[i]) || (up && hashi && x[i] >= hi[i]);
    vp_check(pr[i] == 0 || pr[i] == 1, "mask is made of zeroes and ones");
    if (d[i] != 0) vp_check(pr[i] == (blocked ? 0 : 1), "free variables are the unblocked ones");
    vp_check(same(px[i], x[i]) && same(pd[i], d[i]), "inputs unchanged");
  }
#elif OP == 3
  {
    double s1, s2, s3, a;
    double *q1 = &s1, *q2 = &s2, *q3 = &s3;
    double e1 = ELMAX, e2 = ELMAX, e3 = 0;
    int any = 0, forever = 0;
    vp_check(opk_can_get_step_limits(box), "step limits available");
    switch (vp_pick(0, 3)) {
    case 1: q1 = NULL; break;
    case 2: q2 = NULL; break;
    case 3: q3 = NULL; break;
    }
    st = opk_get_step_limits(q1, q2, q3, vx, box, vd, orient);
    vp_check(st == OPK_SUCCESS, "step limits succeeds");
    for (i = 0; i < N; ++i) {
      elt v = (orient > 0 ? d[i] : -d[i]);
      if (v > 0) {
        if (hashi) {
          elt t = (hi[i] - x[i])/v;
          any = 1;
          if (t < e1) e1 = t;
          if (t > 0 && t < e2) e2 = t;
          if (t > e3) e3 = t;
        } else forever = 1;
      } else if (v < 0) {
        if (haslo) {
          elt t = (lo[i] - x[i])/v;
          any = 1;
          if (t < e1) e1 = t;
          if (t > 0 && t < e2) e2 = t;
          if (t > e3) e3 = t;
        } else forever = 1;
      }
    }
    if (forever || (!haslo && !hashi)) e3 = ELMAX;
    if (q1) vp_check_eq(s1, e1, "smallest step to a bound");
    if (q2) vp_check_eq(s2, e2, "smallest positive step to a bound");
    if (q3 && (any || forever)) vp_check_eq(s3, e3, "largest step to a bound");
    for (i = 0; i < N; ++i) vp_check(same(px[i], x[i]) && same(pd[i], d[i]), "inputs unchanged");
  }
#endif
  vp_reach("end");
  return 0;
}
