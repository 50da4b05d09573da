/* Native counterpart of vp.h: inputs are read from the file $VP_INPUTS. */
#include "vp.h"
#include <stdint.h>

static FILE* fp = NULL;
static int fails_left = 0;
static long live = 0;

static unsigned long next(void)
{
  unsigned long v = 0;
  if (fp == NULL) {
    const char* path = getenv("VP_INPUTS");
    fp = fopen(path != NULL ? path : "inputs.txt", "r");
    if (fp == NULL) { fprintf(stderr, "VP: no inputs\n"); exit(78); }
  }
  if (fscanf(fp, "%lx%*[^\n]", &v) != 1) {
    v = 0;
  }
  return v;
}
#define MK(T, N) T vp_##N(void)                                 \
  { T v; unsigned long u = next(); memcpy(&v, &u, sizeof(T)); return v; }
MK(double, double)
MK(float, float)
MK(int, int)
MK(long, long)
MK(unsigned char, u8)
int vp_bool(void) { return next() & 1; }
int vp_flip(void) { return next() & 1; }
void vp_assume(int c) { if (!c) { fprintf(stderr, "VP: assumption does not hold\n"); exit(77); } }
long vp_range(long lo, long hi) { long v = (long)next(); vp_assume(v >= lo && v <= hi); return v; }
long vp_pick(long lo, long hi) { return vp_range(lo, hi); }
void vp_stop(void) { exit(0); }
void vp_check(int c, const char* msg)
{
  if (!c) { fprintf(stderr, "VP-VIOLATED: %s\n", msg); exit(99); }
}
int vp_same(double a, double b) { return a == b || (a != a && b != b); }
#ifndef VP_RTOL
# define VP_RTOL 0.0
#endif
static double slack(double a, double b)
{
  a = fabs(a); b = fabs(b);
  if (b > a) a = b;
  if (a < 1) a = 1;
  return VP_RTOL*a;
}
void vp_check_eq(double a, double b, const char* msg)
{
  if (!vp_same(a, b) && !(fabs(a - b) <= slack(a, b))) {
    fprintf(stderr, "VP-VIOLATED: %s (%.17g, %.17g)\n", msg, a, b); exit(99);
  }
}
void vp_check_le(double a, double b, const char* msg)
{
  if (!(a <= b) && !(a - b <= slack(a, b))) {
    fprintf(stderr, "VP-VIOLATED: %s (%.17g <= %.17g)\n", msg, a, b); exit(99);
  }
}
void vp_reach(const char* msg) { (void)msg; }
void vp_malloc_may_fail(int n) { fails_left = n; }
long vp_live(void) { return live; }
long vp_outputs(void) { return 0; }

extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void __real_free(void*);
static int fail(void)
{
  if (fails_left > 0 && (next() & 1)) { --fails_left; errno = ENOMEM; return 1; }
  return 0;
}
void* __wrap_malloc(size_t n)
{
  void* p;
  if (fail()) return NULL;
  if (n > ((size_t)1 << 40)) { errno = ENOMEM; return NULL; }
  p = __real_malloc(n);
  if (p != NULL) ++live;
  return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
  void* p;
  if (fail()) return NULL;
  p = __real_calloc(a, b);
  if (p != NULL) ++live;
  return p;
}
void __wrap_free(void* p)
{
  if (p != NULL) --live;
  __real_free(p);
}
