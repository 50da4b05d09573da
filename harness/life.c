/* Lifetime of the objects: references to a graph of objects are held and
   dropped in any order.  Memory accesses are checked by the executor. */
#include "space.h"
#define N 2
#define NOBJ 6
typedef struct { int kind; opk_object* o; int refs; } node;
static node obj[NOBJ];
static int nobj;

static void add(int kind, void* o)
{
  vp_check(o != NULL, "object created");
  vp_check(OPK_REFS(o) >= 1, "a new object is referenced");
  obj[nobj].kind = kind; obj[nobj].o = (opk_object*)o; obj[nobj].refs = 1;
  ++nobj;
}

enum { SPACE, VECTOR, BOX, LNSRCH, NLCG_, VMLMB_, OPER };
static opk_vspace* s;

static void use(node* q, opk_vector* x, opk_vector* g)
{
  switch (q->kind) {
  case SPACE: { opk_vector* v = opk_vcreate((opk_vspace*)q->o); opk_vfill(v, 1); OPK_DROP(v); break; }
  case VECTOR: opk_vfill((opk_vector*)q->o, 2); vp_check(opk_vnorminf((opk_vector*)q->o) == 2, "vector usable"); break;
  case BOX: if (x != NULL) vp_check(opk_project_variables(x, x, (opk_convexset*)q->o) == OPK_SUCCESS, "set usable"); break;
  case LNSRCH: vp_check(opk_lnsrch_start((opk_lnsrch*)q->o, 1, -1, 1, 0, 2) == OPK_LNSRCH_SEARCH, "line search usable"); break;
  case NLCG_:
    vp_check(opk_get_nlcg_iterations((opk_nlcg*)q->o) >= 0, "optimizer usable");
    if (x != NULL && g != NULL) {
      DATA(g)[0] = 3; DATA(g)[1] = 4;
      vp_check(opk_start_nlcg((opk_nlcg*)q->o, x) == OPK_TASK_COMPUTE_FG, "optimizer started");
      vp_check(opk_iterate_nlcg((opk_nlcg*)q->o, x, 1, g) == OPK_TASK_NEW_X, "optimizer iterates");
      vp_check(opk_iterate_nlcg((opk_nlcg*)q->o, x, 1, g) == OPK_TASK_COMPUTE_FG, "optimizer iterates");
    }
    break;
  case VMLMB_:
    vp_check(opk_get_vmlmb_iterations((opk_vmlmb*)q->o) >= 0, "optimizer usable");
    if (x != NULL && g != NULL) {
      DATA(x)[0] = DATA(x)[1] = 1;
      DATA(g)[0] = 0.5; DATA(g)[1] = -0.25;
      vp_check(opk_start_vmlmb((opk_vmlmb*)q->o, x) == OPK_TASK_COMPUTE_FG, "optimizer started");
      vp_check(opk_iterate_vmlmb((opk_vmlmb*)q->o, x, 1, g) == OPK_TASK_NEW_X, "optimizer iterates");
      vp_check(opk_iterate_vmlmb((opk_vmlmb*)q->o, x, 1, g) == OPK_TASK_COMPUTE_FG, "optimizer iterates");
    }
    break;
  default:
    break;
  }
}

int main(void)
{
  int i, left, first = 0, last = 0, dir = 0;
  (void)first; (void)last; (void)dir;
  opk_vector *x = NULL, *g = NULL;
  vp_check(OPK_HOLD(NULL) == NULL, "holding NULL");
  OPK_DROP(NULL);
  vp_check(OPK_REFS(NULL) == 0, "NULL has no references");
  add(SPACE, s = NEWSPACE(N));
  add(VECTOR, opk_vcreate(s));
  add(VECTOR, x = opk_vcreate(s));
#if OP == 0 /* wrapped vector and box with vector bounds */
  {
    static elt data[N];
    add(VECTOR, WRAP(s, data, NULL, NULL));
    add(BOX, opk_new_boxset(s, OPK_BOUND_VECTOR, obj[1].o, OPK_BOUND_VECTOR, obj[vp_pick(1, 3)].o));
  }
#elif OP == 1 /* NLCG */
  {
    opk_nlcg_options o;
    opk_lnsrch* ls = opk_lnsrch_new_csrch(1e-4, 0.1, 1e-10);
    add(LNSRCH, ls);
    opk_get_nlcg_default_options(&o);
    o.flags = vp_flip() ? OPK_NLCG_HAGER_ZHANG : OPK_NLCG_POLAK_RIBIERE_POLYAK;
    add(NLCG_, opk_new_nlcg_optimizer(&o, s, vp_flip() ? ls : NULL));
  }
#elif OP == 2 /* VMLMB */
  {
    opk_vmlmb_options o;
    static double b[1] = { -1 };
    opk_lnsrch* ls = vp_flip() ? opk_lnsrch_new_nonmonotone(3, 1e-4, 0.1, 0.9) : opk_lnsrch_new_backtrack(1e-4, 0.1);
    opk_convexset* box = NULL;
    add(LNSRCH, ls);
    if (vp_flip()) add(BOX, box = vp_flip() ? opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, b, OPK_BOUND_NONE, NULL)
                            : opk_new_boxset(s, OPK_BOUND_NONE, NULL, OPK_BOUND_VECTOR, obj[1].o));
    if (box != NULL) opk_vfill((opk_vector*)obj[1].o, 2);
    opk_get_vmlmb_default_options(&o);
    o.mem = vp_pick(1, 2);
    o.blmvm = vp_flip();
    o.save_memory = vp_flip();
    add(VMLMB_, opk_new_vmlmb_optimizer(&o, s, vp_flip() ? ls : NULL, box));
  }
#endif
  g = (opk_vector*)obj[1].o;
  /* some of them are held once more */
#ifdef FULL
  i = (int)vp_pick(-1, nobj - 1);
#else
  i = vp_flip() ? nobj - 1 : -1;
#endif
  if (i >= 0) {
    opk_index r = OPK_REFS(obj[i].o);
    vp_check(OPK_HOLD(obj[i].o) == obj[i].o, "held object is returned");
    vp_check(OPK_REFS(obj[i].o) == r + 1, "one more reference");
    obj[i].refs = 2;
  }
  /* drop the references in any order, the remaining objects are still usable */
#ifndef FULL
  /* any first one, any last one, the others in either direction */
  first = (int)vp_pick(0, nobj - 1);
  last = (int)vp_pick(0, nobj - 1);
  dir = vp_flip();
#endif
  for (left = nobj + (i >= 0); left > 0; --left) {
    opk_index r;
#ifdef FULL
    i = (int)vp_pick(0, nobj - 1);
    vp_assume(obj[i].refs > 0);
#else
    if (obj[first].refs > 0) i = first;
    else {
      int k;
      i = last;
      for (k = 0; k < nobj; ++k) {
        int q = dir ? k : nobj - 1 - k;
        if (q != last && obj[q].refs > 0) { i = q; break; }
      }
    }
#endif
    r = OPK_REFS(obj[i].o);
    vp_check(r >= obj[i].refs, "referenced object");
    if (r > 1) {
      OPK_DROP(obj[i].o);
      vp_check(OPK_REFS(obj[i].o) == r - 1, "one less reference");
    } else {
      long n = vp_live();
      OPK_DROP(obj[i].o);
      vp_check(vp_live() < n, "unreferenced object is destroyed");
    }
    if (--obj[i].refs == 0) {
      if ((void*)x == (void*)obj[i].o) x = NULL;
      if ((void*)g == (void*)obj[i].o) g = NULL;
      if (left <= nobj - 1) { /* a few uses are enough */
        for (i = 0; i < nobj; ++i) if (obj[i].refs > 0) use(&obj[i], x, g);
      }
    }
  }
  vp_check(vp_live() == 0, "every object is destroyed with its last reference");
  vp_reach("destroyed");
  return 0;
}
