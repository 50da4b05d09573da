/* A box set with symbolic bounds given in any of the documented ways.
   After make_box(): bound k of variable i is lo[i], hi[i] (haslo, hashi). */
#include "space.h"
#ifndef N
# define N 2
#endif
static int haslo, hashi;
static elt lo[N], hi[N];
static float fb[2][N];
static double db[2][N];

static void* make_bound(opk_vspace* s, opk_bound_type t, int k, elt* b, int* has)
{
  int i;
  *has = 1;
  switch (t) {
  case OPK_BOUND_NONE:
    *has = 0;
    return NULL;
  case OPK_BOUND_SCALAR_FLOAT:
    fb[k][0] = vp_float();
    for (i = 0; i < N; ++i) b[i] = (elt)fb[k][0];
    return &fb[k][0];
  case OPK_BOUND_SCALAR_DOUBLE:
    db[k][0] = vp_double();
    for (i = 0; i < N; ++i) b[i] = (elt)db[k][0];
    return &db[k][0];
  case OPK_BOUND_STATIC_FLOAT:
  case OPK_BOUND_VOLATILE_FLOAT:
    for (i = 0; i < N; ++i) b[i] = (elt)(fb[k][i] = vp_float());
    return &fb[k][0];
  case OPK_BOUND_STATIC_DOUBLE:
  case OPK_BOUND_VOLATILE_DOUBLE:
    for (i = 0; i < N; ++i) b[i] = (elt)(db[k][i] = vp_double());
    return &db[k][0];
  default:
    {
      opk_vector* v = opk_vcreate(s);
      for (i = 0; i < N; ++i) b[i] = DATA(v)[i] = SYM();
      return v;
    }
  }
}

static opk_convexset* make_box(opk_vspace* s, opk_bound_type tl, opk_bound_type tu)
{
  int i;
  void* l = make_bound(s, tl, 0, lo, &haslo);
  void* u = make_bound(s, tu, 1, hi, &hashi);
  opk_convexset* box = opk_new_boxset(s, tl, l, tu, u);
  vp_check(box != NULL, "box set created");
  for (i = 0; i < N; ++i) {
    if (haslo) vp_assume(!VP_ISNAN(lo[i]));
    if (hashi) vp_assume(!VP_ISNAN(hi[i]));
    if (haslo && hashi) vp_assume(lo[i] <= hi[i]);
  }
  /* the caller may release or reuse what it has provided */
  if (tl == OPK_BOUND_VECTOR) OPK_DROP(l);
  if (tu == OPK_BOUND_VECTOR) OPK_DROP(u);
  if (tl == OPK_BOUND_VOLATILE_FLOAT || tl == OPK_BOUND_SCALAR_FLOAT) { for (i = 0; i < N; ++i) fb[0][i] = vp_float(); }
  if (tl == OPK_BOUND_VOLATILE_DOUBLE || tl == OPK_BOUND_SCALAR_DOUBLE) { for (i = 0; i < N; ++i) db[0][i] = vp_double(); }
  if (tu == OPK_BOUND_VOLATILE_FLOAT || tu == OPK_BOUND_SCALAR_FLOAT) { for (i = 0; i < N; ++i) fb[1][i] = vp_float(); }
  if (tu == OPK_BOUND_VOLATILE_DOUBLE || tu == OPK_BOUND_SCALAR_DOUBLE) { for (i = 0; i < N; ++i) db[1][i] = vp_double(); }
  return box;
}
