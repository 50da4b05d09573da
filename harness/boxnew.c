/* Construction of box sets and status of the operations of convex sets. */
#include "space.h"
#ifndef N
# define N 2
#endif
int main(void)
{
  opk_vspace* s = NEWSPACE(N);
  opk_vspace* s2 = NEWSPACE(N);
  opk_vector *x = opk_vcreate(s), *d = opk_vcreate(s), *r = opk_vcreate(s), *y = opk_vcreate(s2);
  double db[N];
  float fb[N];
  void* l[2];
  int t[2], ok = 1, i, k;
  long base;
  opk_convexset* box;
  for (i = 0; i < N; ++i) {
    DATA(x)[i] = SYM(); DATA(d)[i] = SYM(); DATA(r)[i] = SYM(); DATA(y)[i] = SYM();
    db[i] = vp_double();
    fb[i] = vp_float();
  }
  base = vp_live();
#if OP == 0
  for (k = 0; k < 2; ++k) {
    int q = (int)vp_pick(0, 3);
    t[k] = vp_int();
    l[k] = (q == 0 ? NULL : q == 1 ? (void*)db : q == 2 ? (void*)x : (void*)y);
    /* do not lie on the type of the bound */
    if (q == 1) vp_assume((t[k] != OPK_BOUND_VECTOR));
    if (q >= 2) vp_assume((t[k] <= OPK_BOUND_NONE) | (t[k] >= OPK_BOUND_VECTOR));
    if (t[k] == OPK_BOUND_NONE) ok = ok && l[k] == NULL;
    else if (t[k] == OPK_BOUND_VECTOR) ok = ok && q == 2;
    else if (t[k] == OPK_BOUND_SCALAR_FLOAT || t[k] == OPK_BOUND_SCALAR_DOUBLE ||
             t[k] == OPK_BOUND_STATIC_FLOAT || t[k] == OPK_BOUND_STATIC_DOUBLE ||
             t[k] == OPK_BOUND_VOLATILE_FLOAT || t[k] == OPK_BOUND_VOLATILE_DOUBLE) ok = ok && q == 1;
    else ok = 0;
  }
  vp_assume(OPK_BOUND_NONE == 0);
  errno = 0;
  box = opk_new_boxset(s, (opk_bound_type)t[0], l[0], (opk_bound_type)t[1], l[1]);
  vp_check((box != NULL) == ok, "box set created if and only if the bounds are valid");
  if (!ok) {
    vp_check(errno == EINVAL, "errno");
    vp_reach("invalid");
  }
  else vp_reach("valid");
  vp_check(opk_new_boxset(NULL, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL) == NULL, "no space");
  OPK_DROP(box);
  vp_check(vp_live() == base, "no leak");
  vp_check(opk_get_object_references((opk_object*)x) == 1 && opk_get_object_references((opk_object*)y) == 1, "bounds released");
#else
  {
    opk_vector* a[3];
    int q[3], null = 0, bad = 0, op;
    double s1 = 1, s2v = 2, s3 = 3;
    opk_status st, e;
    elt r0[N], y0[N];
    box = vp_flip() ? opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, db, OPK_BOUND_NONE, NULL) : NULL;
    op = (int)vp_pick(0, 3);
    for (k = 0; k < 3; ++k) {
      q[k] = (op == 0 && k == 2) ? 1 : (int)vp_pick(0, 2);
      a[k] = (q[k] == 0 ? NULL : q[k] == 2 ? y : k == 0 ? r : k == 1 ? x : d);
      if (op == 3 && k == 0) continue;
      if (op == 0 && k == 2) continue;
      null |= q[k] == 0;
      bad |= q[k] == 2;
    }
    for (i = 0; i < N; ++i) { r0[i] = DATA(r)[i]; y0[i] = DATA(y)[i]; vp_assume(r0[i] == r0[i]); vp_assume(y0[i] == y0[i]); }
    null |= box == NULL;
    switch (op) {
    case 0: st = opk_project_variables(a[0], a[1], box); break;
    case 1: st = opk_project_direction(a[0], a[1], box, a[2], OPK_DESCENT); break;
    case 2: st = opk_get_free_variables(a[0], a[1], box, a[2], OPK_DESCENT); break;
    default: st = opk_get_step_limits(&s1, &s2v, &s3, a[1], box, a[2], OPK_DESCENT); break;
    }
    e = (null ? OPK_ILLEGAL_ADDRESS : bad ? OPK_BAD_SPACE : OPK_SUCCESS);
    vp_check(st == e, "status of the operation");
    if (e != OPK_SUCCESS) {
      for (i = 0; i < N; ++i) vp_check((DATA(r)[i] == r0[i]) & (DATA(y)[i] == y0[i]), "failure leaves vectors unchanged");
      vp_check(s1 == 1 && s2v == 2 && s3 == 3, "failure leaves results unchanged");
      vp_reach("failure");
    } else vp_reach("success");
    vp_check(!opk_can_project_variables(NULL) & !opk_can_project_directions(NULL) &
             !opk_can_get_free_variables(NULL) & !opk_can_get_step_limits(NULL), "NULL set");
    OPK_DROP(box);
    vp_check(vp_live() == base, "no leak");
  }
#endif
  return 0;
}
