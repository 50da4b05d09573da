/* Argument checking of the vector API.
   OP 0: operations with vectors of different spaces; 1: peek, poke;
   2: import, export. */
#include "space.h"
#ifndef N
# define N 3
#endif
static int errors;
static void on_error(const char* msg) { vp_check(msg != NULL && msg[0] != 0, "error message"); ++errors; }

int main(void)
{
  opk_vspace* s = NEWSPACE(N);
  opk_vector* v[4];
  elt* p[4];
  elt o[4][8];
  int i, k;
#if OP == 0
  opk_vspace* s2 = NULL;
  int n[4], op, other, kind, nargs, result = 0;
  opk_error_handler* old;
  double a = vp_double(), b = vp_double(), c = vp_double(), r = 0;
  kind = (int)vp_pick(0, 3);
  switch (kind) {
  case 0: s2 = NEWSPACE(N); break;
  case 1: s2 = NEWSPACE(N + 1); break;
  case 2: s2 = NEWSPACE(1); break;
# ifdef FLT
  default: s2 = opk_new_simple_double_vector_space(N); break;
# else
  default: s2 = opk_new_simple_float_vector_space(N); break;
# endif
  }
  other = (int)vp_pick(1, 14); /* bits: which vectors belong to the other space */
  for (k = 0; k < 4; ++k) {
    int q = (other >> k) & 1;
    n[k] = (q ? (kind == 1 ? N + 1 : kind == 2 ? 1 : N) : N);
    v[k] = opk_vcreate(q ? s2 : s);
    p[k] = (q && kind == 3 ? NULL : DATA(v[k]));
    for (i = 0; i < n[k]; ++i) {
      double t;
      if (p[k] != NULL) {
        p[k][i] = o[k][i] = SYM();
      } else {
        vp_check(opk_vpoke(v[k], i, k + i + 1) == OPK_SUCCESS, "poke");
      }
    }
  }
  vp_check(opk_get_error_handler() != NULL, "default error handler");
  old = opk_set_error_handler(on_error);
  vp_check(old != NULL && old != on_error, "former error handler");
  vp_check(opk_get_error_handler() == on_error, "current error handler");
  op = (int)vp_pick(0, 7);
  switch (op) {
  case 0: nargs = 2; opk_vcopy(v[0], v[1]); break;
  case 1: nargs = 2; opk_vscale(v[0], a, v[1]); break;
  case 2: nargs = 2; opk_vswap(v[0], v[1]); break;
  case 3: nargs = 2; r = opk_vdot(v[0], v[1]); result = 1; break;
  case 4: nargs = 3; r = opk_vdot3(v[0], v[1], v[2]); result = 1; break;
  case 5: nargs = 3; opk_vproduct(v[0], v[1], v[2]); break;
  case 6: nargs = 3; opk_vaxpby(v[0], a, v[1], b, v[2]); break;
  default: nargs = 4; opk_vaxpbypcz(v[0], a, v[1], b, v[2], c, v[3]); break;
  }
  {
    int mask = other & ((1 << nargs) - 1);
    if (mask == 0 || mask == (1 << nargs) - 1) {
      vp_check(errors == 0, "no error for vectors of the same space");
      vp_reach("same");
      return 0;
    }
  }
  vp_check(errors == 1, "error reported once to the handler");
  if (result) vp_check(r == 0, "null result");
  for (k = 0; k < 4; ++k) {
    for (i = 0; i < n[k]; ++i) {
      double t = -1;
      if (p[k] != NULL) {
        vp_check_eq(p[k][i], o[k][i], "vectors are unchanged");
      } else {
        vp_check(opk_vpeek(v[k], i, &t) == OPK_SUCCESS, "peek");
        vp_check(t == k + i + 1, "vectors are unchanged");
      }
    }
  }
  vp_check(opk_set_error_handler(NULL) == on_error, "former error handler");
  vp_check(opk_get_error_handler() == old, "NULL restores the default handler");
#elif OP == 1
  long q = vp_long();
  double val = vp_double(), got = 12345, *ptr = &got;
  opk_status st;
  int null = vp_flip(), inb = (q >= 0) & (q < N);
  v[0] = opk_vcreate(s);
  p[0] = DATA(v[0]);
  for (i = 0; i < N; ++i) p[0][i] = o[0][i] = SYM();
  if (vp_flip()) {
    int nullp = vp_flip();
    st = opk_vpeek(null ? NULL : v[0], q, nullp ? NULL : &got);
    if (null || nullp) {
      vp_check(st == OPK_ILLEGAL_ADDRESS, "peek: address status");
      vp_check(got == 12345, "peek: result untouched");
    } else if (inb) {
      vp_check(st == OPK_SUCCESS, "peek: success");
      for (i = 0; i < N; ++i) if (i == q) vp_check_eq(got, o[0][i], "peek: value");
      vp_reach("peek");
    } else {
      vp_check(st == OPK_OUT_OF_BOUNDS_INDEX, "peek: index status");
      vp_check(got == 12345, "peek: result untouched");
    }
    for (i = 0; i < N; ++i) vp_check_eq(p[0][i], o[0][i], "peek: vector untouched");
  } else {
    st = opk_vpoke(null ? NULL : v[0], q, val);
    if (null) vp_check(st == OPK_ILLEGAL_ADDRESS, "poke: address status");
    else if (inb) vp_check(st == OPK_SUCCESS, "poke: success");
    else vp_check(st == OPK_OUT_OF_BOUNDS_INDEX, "poke: index status");
    for (i = 0; i < N; ++i) {
      vp_check_eq(p[0][i], (!null && i == q ? (elt)val : o[0][i]), "poke: vector contents");
    }
    vp_reach("poke");
  }
#else
  /* import, export */
  int type = vp_int(), imp = vp_flip(), null1 = vp_flip(), null2 = vp_flip();
  long n = vp_long();
  float f[N];
  double d[N];
  opk_status st;
  v[0] = opk_vcreate(s);
  p[0] = DATA(v[0]);
  for (i = 0; i < N; ++i) {
    p[0][i] = o[0][i] = SYM();
    f[i] = vp_float();
    d[i] = vp_double();
  }
  if (imp) {
    float f0[N];
    double d0[N];
    const void* src = (type == OPK_FLOAT ? (void*)f : (void*)d);
    for (i = 0; i < N; ++i) { f0[i] = f[i]; d0[i] = d[i]; }
    st = opk_vimport(null1 ? NULL : v[0], null2 ? NULL : src, (opk_eltype)type, n);
    for (i = 0; i < N; ++i) {
      vp_check_eq(f[i], f0[i], "import: source untouched");
      vp_check_eq(d[i], d0[i], "import: source untouched");
    }
  } else {
    void* dst = (type == OPK_FLOAT ? (void*)f : (void*)d);
    float f0[N];
    double d0[N];
    for (i = 0; i < N; ++i) { f0[i] = f[i]; d0[i] = d[i]; }
    st = opk_vexport(null2 ? NULL : dst, (opk_eltype)type, n, null1 ? NULL : v[0]);
    for (i = 0; i < N; ++i) {
      vp_check_eq(f[i], (st == OPK_SUCCESS && type == OPK_FLOAT ? (float)o[0][i] : f0[i]), "export: values");
      vp_check_eq(d[i], (st == OPK_SUCCESS && type == OPK_DOUBLE ? (double)o[0][i] : d0[i]), "export: values");
    }
  }
  if (null1 || null2) vp_check(st == OPK_ILLEGAL_ADDRESS, "address status");
  else if (type != OPK_FLOAT && type != OPK_DOUBLE) vp_check(st == OPK_INVALID_ARGUMENT, "type status");
  else if (n != N) vp_check(st == OPK_INVALID_ARGUMENT, "size status");
  else {
    vp_check(st == OPK_SUCCESS, "success");
    vp_reach("done");
  }
  for (i = 0; i < N; ++i) {
    elt e = o[0][i];
    if (imp && st == OPK_SUCCESS) e = (type == OPK_FLOAT ? (elt)f[i] : (elt)d[i]);
    vp_check_eq(p[0][i], e, "import: vector contents");
  }
#endif
  vp_reach("end");
  return 0;
}
