/* Allocation failures: every allocation of a constructor may fail. */
#include "space.h"
#include "cobyla.h"
#include "newuoa.h"
#include "bobyqa.h"
#define N 2
static double obj1(opk_index n, opk_index m, const double* x, double* con, void* data) { (void)n; (void)m; (void)con; (void)data; return x[0]; }
#define BUILD(expr)                                              \
  do {                                                           \
    base = vp_live();                                            \
    errno = 0;                                                   \
    vp_malloc_may_fail(99);                                      \
    r = (void*)(expr);                                           \
    vp_malloc_may_fail(0);                                       \
  } while (0)

int main(void)
{
  void* r = NULL;
  long base = 0;
  opk_vspace* s = NEWSPACE(N);
  opk_vector* v = opk_vcreate(s);
  opk_lnsrch* ls = opk_lnsrch_new_csrch(1e-4, 0.9, 1e-10);
  opk_convexset* box;
  elt data[N];
  float fb[N];
  double db[N];
  int kind = 0, i, j;
  static const opk_bound_type types[8] = { OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_STATIC_FLOAT,
    OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE, OPK_BOUND_VECTOR };
  void* addr[8];
  addr[0] = NULL; addr[1] = addr[3] = addr[5] = fb; addr[2] = addr[4] = addr[6] = db; addr[7] = v;
  for (i = 0; i < N; ++i) { data[i] = 0; fb[i] = 0; db[i] = 0; DATA(v)[i] = 0; }
  box = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, db, OPK_BOUND_VECTOR, v);
#if OP == 0 /* spaces, vectors, box sets, line searches, operators */
  switch (vp_pick(0, 6)) {
  case 0: BUILD(NEWSPACE(3)); break;
  case 1: BUILD(opk_vcreate(s)); break;
  case 2: BUILD(WRAP(s, data, NULL, NULL)); break;
  case 3: i = (int)vp_pick(0, 7); j = (int)vp_pick(0, 7); BUILD(opk_new_boxset(s, types[i], addr[i], types[j], addr[j])); break;
  case 4: BUILD(opk_lnsrch_new_csrch(1e-4, 0.9, 1e-10)); break;
  case 5: BUILD(opk_lnsrch_new_backtrack(1e-4, 0.1)); break;
  default: BUILD(opk_lnsrch_new_nonmonotone(4, 1e-4, 0.1, 0.9)); break;

  }
#elif OP == 1 /* optimizers */
  if (vp_flip()) {
    opk_nlcg_options o;
    opk_get_nlcg_default_options(&o);
    o.flags = vp_pick(1, 8);
    i = vp_flip();
    BUILD(opk_new_nlcg_optimizer(&o, s, i ? ls : NULL));
  } else {
    opk_vmlmb_options o;
    int k = vp_flip();
    opk_get_vmlmb_default_options(&o);
    o.blmvm = vp_flip();
    o.save_memory = vp_flip();
    i = vp_flip();
    BUILD(opk_new_vmlmb_optimizer(&o, s, i ? ls : NULL, k ? box : NULL));
  }
#elif OP == 2 /* driver */
  {
    int k = vp_flip();
    i = (int)vp_pick(0, 7);
    j = (int)vp_pick(0, 7);
    vp_assume(types[i] != OPK_BOUND_VECTOR);
    vp_assume(types[j] != OPK_BOUND_VECTOR);
    BUILD(opk_new_optimizer(i == 0 && j == 0 && k ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, NULL, ELTYPE, N,
                            types[i], addr[i], types[j], addr[j], k ? ls : NULL));
    kind = 2;
  }
#elif OP == 3 /* derivative-free */
  switch (vp_pick(0, 1)) {
  case 0: BUILD(cobyla_create(2, vp_pick(0, 1), 0.5, 0.1, 0, 10)); kind = 3; break;
  default: BUILD(newuoa_create(2, vp_pick(4, 6), 0.5, 0.1, 0, 10)); kind = 4; break;
  }
#endif
  if (r == NULL) {
    vp_check(errno == ENOMEM, "errno tells that there is not enough memory");
    vp_check(vp_live() == base, "nothing is leaked on failure");
    vp_reach("failure");
  } else {
    vp_check(vp_live() > base, "resources have been allocated");
    if (kind == 0) OPK_DROP(r);

    else if (kind == 2) opk_destroy_optimizer((opk_optimizer*)r);
#if OP == 3
    else if (kind == 3) cobyla_delete((cobyla_context*)r);
    else newuoa_delete((newuoa_context*)r);
#endif
    vp_check(vp_live() == base, "everything is released");
    vp_reach("success");
  }
  vp_check(OPK_REFS(v) == 2 && OPK_REFS(ls) == 1 && OPK_REFS(box) == 1, "references are released");
  OPK_DROP(box); OPK_DROP(ls); OPK_DROP(v);
  vp_check(OPK_REFS(s) == 1, "references are released");
  OPK_DROP(s);
  vp_check(vp_live() == 0, "everything is released");
  return 0;
}
