/* Vectors wrapping user data: the vector is the user's array, and the release
   method is applied exactly once to each client data, when the vector is
   destroyed or rewrapped. */
#include "space.h"
#ifndef N
# define N 2
#endif
static int cd[3], freed[3];
static int calls;
static void rel(void* q, int w)
{
  int k;
  ++calls;
  for (k = 0; k < 3; ++k) if (q == &cd[k]) { freed[k] += 1; cd[k] += 10*w; return; }
  vp_check(q == NULL, "release method applied to client data");
}
static void f1(void* q) { rel(q, 1); }
static void f2(void* q) { rel(q, 2); }
typedef void proc(void*);

int main(void)
{
  elt* a[3];
  opk_vspace* s = NEWSPACE(N);
  opk_vspace* bad =
#ifdef FLT
    opk_new_simple_double_vector_space(N);
#else
    opk_new_simple_float_vector_space(N);
#endif
  proc* fs[3] = {NULL, f1, f2};
  int fi, ci, i, step, held = 0, want = 0, live[3] = {0,0,0};
  int exp[3] = {0,0,0}, mark[3] = {0,0,0};
  opk_vector *v, *w;
  long base;
  /* exactly sized arrays: any access out of bounds is detected */
  for (i = 0; i < 3; ++i) a[i] = malloc(N*sizeof(elt));
  for (i = 0; i < 3; ++i) { int j; for (j = 0; j < N; ++j) a[i][j] = 0; }
  base = vp_live();
  errno = 0;
  vp_check(WRAP(bad, a[0], f1, &cd[0]) == NULL, "wrapping in a space of another type fails");
  vp_check(errno == EINVAL, "errno");
  vp_check(WRAP(s, NULL, f1, &cd[0]) == NULL, "wrapping NULL fails");
  vp_check(errno == EFAULT, "errno");
  vp_check(calls == 0 && vp_live() == base, "failure leaves client data alone");
  fi = (int)vp_pick(0, 2);
  ci = (int)vp_pick(0, 1);
  v = WRAP(s, a[0], fs[fi], ci ? &cd[0] : NULL);
  vp_check(v != NULL, "wrapped");
  vp_check(DATA(v) == a[0] && CDATA(v) == (ci ? &cd[0] : NULL) && CFREE(v) == fs[fi], "accessors");
  for (step = 0; step < 2; ++step) {
    if (vp_flip()) {
      /* rewrap */
      int nf = (int)vp_pick(0, 2), nc = (int)vp_pick(0, 2), st, null = (int)vp_pick(0, 2);
      void* oldc = CDATA(v);
      void* newc = (nc == 0 ? NULL : nc == 1 ? oldc : &cd[step + 1]);
      proc* oldf = CFREE(v);
      int c0 = calls;
      if (null == 1) {
        vp_check(REWRAP(NULL, a[1], fs[nf], newc) != OPK_SUCCESS, "rewrap NULL fails");
        vp_check(REWRAP(v, NULL, fs[nf], newc) != OPK_SUCCESS, "rewrap with NULL data fails");
        w = opk_vcreate(bad);
        vp_check(REWRAP(w, a[1], fs[nf], newc) != OPK_SUCCESS, "rewrap a vector of another type fails");
        OPK_DROP(w);
        vp_check(calls == c0, "failure leaves client data alone");
        vp_check(CDATA(v) == oldc && CFREE(v) == oldf, "failure leaves the vector alone");
        vp_reach("rewrap failure");
        continue;
      }
      st = REWRAP(v, a[step + 1], fs[nf], newc);
      vp_check(st == OPK_SUCCESS, "rewrap");
      vp_check(DATA(v) == a[step + 1] && CDATA(v) == newc && CFREE(v) == fs[nf], "accessors");
      if (oldf != NULL && (oldf != fs[nf] || oldc != newc)) {
        vp_check(calls == c0 + 1, "old release method applied once");
        for (i = 0; i < 3; ++i) if (oldc == &cd[i]) exp[i] += 1, mark[i] += (oldf == f1 ? 10 : 20);
      } else {
        vp_check(calls == c0, "release method not applied");
      }
      for (i = 0; i < 3; ++i) vp_check(freed[i] == exp[i] && cd[i] == mark[i], "each client data released as expected");
      vp_reach("rewrap");
    } else if (vp_flip()) {
      if (vp_flip()) {
        w = (opk_vector*)OPK_HOLD(v);
        vp_check(w == v, "hold returns its argument");
        ++held;
      } else if (held) {
        int c0 = calls;
        OPK_DROP(v);
        --held;
        vp_check(calls == c0, "vector still in use");
      }
    } else {
      /* use: the vector is the user's array */
      elt x = SYM(), *p = DATA(v);
      double t;
      vp_assume(x == x);
      p[N-1] = x;
      vp_check(opk_vpeek(v, N-1, &t) == OPK_SUCCESS, "peek");
      vp_check(t == x, "vector reads the array");
      vp_check(opk_vpoke(v, 0, 3.0) == OPK_SUCCESS, "poke");
      vp_check(p[0] == 3, "vector writes the array");
      opk_vfill(v, 2.0);
      for (i = 0; i < N; ++i) vp_check(p[i] == 2, "vector operations apply to the array");
    }
  }
  {
    void* oldc = CDATA(v);
    proc* oldf = CFREE(v);
    int c0 = calls;
    OPK_DROP(s); /* order is irrelevant */
    for (; held >= 0; --held) {
      vp_check(calls == c0, "vector still in use");
      OPK_DROP(v);
    }
    vp_check(calls == c0 + (oldf != NULL), "release method applied at destruction");
    for (i = 0; i < 3; ++i) if (oldf != NULL && oldc == &cd[i]) exp[i] += 1, mark[i] += (oldf == f1 ? 10 : 20);
    for (i = 0; i < 3; ++i) vp_check(freed[i] == exp[i] && cd[i] == mark[i], "each client data released as expected");
  }
  vp_check(vp_live() == base - 1, "no leak");
  OPK_DROP(bad);
  vp_check(vp_live() == base - 2, "no leak");
  for (i = 0; i < 3; ++i) { a[i][0] = 1; free(a[i]); }
  errno = 0;
  vp_check(DATA(NULL) == NULL && CDATA(NULL) == NULL && CFREE(NULL) == NULL && errno == EFAULT, "accessors of NULL");
  vp_reach("end");
  return 0;
}
