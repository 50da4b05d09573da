/*
 * vp.h -- interface of the harnesses.
 *
 * A harness is an ordinary C program calling the public API of the code under
 * test.  Its inputs come from vp_double(), vp_int(), ... :
 *   - the symbolic executor (vp/rt.py) makes each of them a fresh symbol;
 *   - natively (replay of a solver counterexample, replay.c) they are read, in
 *     the same order, from the file written by the executor.
 */
#ifndef VP_H_
#define VP_H_ 1
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <errno.h>

/* Symbolic inputs. */
extern double vp_double(void);
extern float vp_float(void);
extern int vp_int(void);
extern long vp_long(void);
extern unsigned char vp_u8(void);
extern int vp_bool(void);             /* 0 or 1, symbolic */
extern int vp_flip(void);             /* 0 or 1, one path for each */
extern long vp_range(long lo, long hi); /* lo..hi, symbolic */
extern long vp_pick(long lo, long hi);  /* lo..hi, one path for each */

extern void vp_assume(int c);
extern void vp_check(int c, const char* msg);
/* a == b or both NaN (native replay of ideal arithmetic: up to rounding) */
extern void vp_check_eq(double a, double b, const char* msg);
extern void vp_check_le(double a, double b, const char* msg);
extern int vp_same(double a, double b);
/* Reachability witness: some path must get here. */
extern void vp_reach(const char* msg);
extern void vp_stop(void);
/* From now on at most n allocations may fail (each one may or may not). */
extern void vp_malloc_may_fail(int n);
extern long vp_live(void);            /* number of allocated blocks */
extern long vp_outputs(void);

static double vp_dbl_in(double lo, double hi)
{
  double v = vp_double();
  vp_assume((v >= lo) & (v <= hi));
  return v;
}
static double vp_finite(void)
{
  double v = vp_double();
  vp_assume((v >= -DBL_MAX) & (v <= DBL_MAX));
  return v;
}
static int vp_unused_(void) { (void)vp_dbl_in; (void)vp_finite; (void)vp_unused_; return 0; }
#define VP_ISNAN(x)    ((x) != (x))
#endif /* VP_H_ */
