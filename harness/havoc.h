/* An abstract vector space: every reduction yields an arbitrary value and the
   vectors only remember when they have been written, which vectors they are
   equal to, and whether their contents is known to be in the feasible set. */
#ifndef HAVOC_H_
#define HAVOC_H_ 1
#include "optimpack-private.h"
#include "vp.h"

typedef struct { opk_vector base; int version; int feasible; } hvec;
#define HV(v) ((hvec*)(v))
static int hclock = 0;
static int hreductions = 0;

static void hput(opk_vector* v, int feasible) { HV(v)->version = ++hclock; HV(v)->feasible = feasible; }
static double hany(void) { ++hreductions; return vp_dbl_in(-1000, 1000); }
static double hpos(void) { ++hreductions; return vp_dbl_in(0, 1000); }

static opk_vector* h_create(opk_vspace* s) { opk_vector* v = opk_allocate_vector(s, sizeof(hvec)); if (v) hput(v, 0); return v; }
static void h_fill(opk_vspace* s, opk_vector* v, double a) { (void)s; (void)a; hput(v, 0); }
static double h_norm(opk_vspace* s, const opk_vector* x) { (void)s; (void)x; return hpos(); }
static double h_dot(opk_vspace* s, const opk_vector* x, const opk_vector* y) { (void)s; return x == y ? hpos() : hany(); }
static double h_dot3(opk_vspace* s, const opk_vector* w, const opk_vector* x, const opk_vector* y) { (void)s; (void)w; return x == y ? hpos() : hany(); }
static void h_copy(opk_vspace* s, opk_vector* d, const opk_vector* x) { (void)s; HV(d)->version = HV(x)->version; HV(d)->feasible = HV(x)->feasible; }
static void h_swap(opk_vspace* s, opk_vector* x, opk_vector* y)
{ int a = HV(x)->version, b = HV(x)->feasible; h_copy(s, x, y); HV(y)->version = a; HV(y)->feasible = b; }
static void h_scale(opk_vspace* s, opk_vector* d, double a, const opk_vector* x) { (void)s; (void)a; (void)x; hput(d, 0); }
static void h_product(opk_vspace* s, opk_vector* d, const opk_vector* x, const opk_vector* y) { (void)s; (void)x; (void)y; hput(d, 0); }
static void h_axpby(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y)
{ (void)s; (void)a; (void)x; (void)b; (void)y; hput(d, 0); }
static void h_axpbypcz(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y, double c, const opk_vector* z)
{ (void)s; (void)a; (void)x; (void)b; (void)y; (void)c; (void)z; hput(d, 0); }
static void h_fin(opk_vspace* s, opk_vector* v) { (void)s; (void)v; }
static void h_fins(opk_vspace* s) { (void)s; }
static opk_vspace_operations hops;

static opk_vspace* havoc_space(long n)
{
  hops.description = "abstract space";
  hops.create = h_create; hops.finalize_vector = h_fin; hops.finalize_space = h_fins;
  hops.fill = h_fill;
  hops.norm1 = hops.norm2 = hops.norminf = h_norm;
  hops.dot = h_dot; hops.dot3 = h_dot3;
  hops.copy = h_copy; hops.swap = h_swap; hops.scale = h_scale; hops.product = h_product;
  hops.axpby = h_axpby; hops.axpbypcz = h_axpbypcz;
  return opk_allocate_vector_space(&hops, n, 0);
}

/* abstract feasible set */
static opk_status h_projvar(opk_vector* d, const opk_vector* x, const opk_convexset* c) { (void)c; if (HV(x)->feasible) h_copy(NULL, d, x); else hput(d, 1); return OPK_SUCCESS; }
static opk_status h_projdir(opk_vector* p, const opk_vector* x, const opk_convexset* c, const opk_vector* d, opk_orientation o) { (void)c; (void)d; (void)o;
#ifdef FEAS
  vp_check(HV(x)->feasible, "directions are projected at feasible variables");
#else
  (void)x;
#endif
  hput(p, 0); return OPK_SUCCESS; }
static opk_status h_steplim(double* s1, double* s2, double* s3, const opk_vector* x, const opk_convexset* c, const opk_vector* d, opk_orientation o)
{ (void)c; (void)d; (void)o; (void)x;
#ifdef FEAS
  vp_check(HV(x)->feasible, "step limits are for feasible variables");
#endif
  *s1 = hpos(); *s2 = hpos(); *s3 = hpos(); vp_assume((*s1 <= *s2) & (*s2 <= *s3)); return OPK_SUCCESS; }
static void h_nothing(opk_convexset* c) { (void)c; }
static opk_convexset* havoc_set(opk_vspace* s) { return opk_allocate_convexset(s, h_nothing, h_projvar, h_projdir, h_projdir, h_steplim, 0); }

/* line search with arbitrary outcomes */
static opk_lnsrch_task h_outcome;      /* last outcome */
static opk_status h_why;
static int h_starts, h_iters;
static opk_lnsrch_task h_end(opk_lnsrch* l, opk_lnsrch_task t, opk_status st) { l->task = t; l->status = st; h_outcome = t; h_why = st; return t; }
static opk_lnsrch_task h_ls_start(opk_lnsrch* l)
{
  ++h_starts;
  return vp_flip() ? h_end(l, OPK_LNSRCH_SEARCH, OPK_SUCCESS) : h_end(l, OPK_LNSRCH_ERROR, OPK_INVALID_ARGUMENT);
}
static opk_lnsrch_task h_ls_iterate(opk_lnsrch* l, double* stp, double f, double df)
{
  (void)f; (void)df;
  ++h_iters;
  switch (vp_pick(0, 4)) {
  case 0: { double t = vp_double(); vp_assume((t > l->stpmin) & (t < l->stpmax)); *stp = t; } return h_end(l, OPK_LNSRCH_SEARCH, OPK_SUCCESS);
  case 1: return h_end(l, OPK_LNSRCH_CONVERGENCE, OPK_SUCCESS);
  case 2: return h_end(l, OPK_LNSRCH_WARNING, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS);
  case 3: return h_end(l, OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN);
  default: return h_end(l, OPK_LNSRCH_ERROR, OPK_NOT_A_DESCENT);
  }
}
static opk_lnsrch_operations h_lsops = { NULL, h_ls_start, h_ls_iterate, OPK_FALSE };
static opk_lnsrch* havoc_lnsrch(int deriv) { h_lsops.use_deriv = deriv; return opk_allocate_line_search(&h_lsops, 0); }
#endif
