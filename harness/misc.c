/* Status codes, named constants and string copies. */
#include "optimpack.h"
#include "vp.h"
static int has(const char* text, const char* word)
{
  int i, j;
  for (i = 0; text[i] != 0; ++i) {
    for (j = 0; word[j] != 0 && text[i + j] == word[j]; ++j) ;
    if (word[j] == 0) return 1;
  }
  return 0;
}

static const struct { const char* name; long value; } tab[] = {
#define OPK_STATUS_(a, b, c) { #b, b },
  OPK_STATUS_LIST_
#undef OPK_STATUS_
#define C(x) { #x, x }
  C(OPK_TRUE), C(OPK_FALSE), C(OPK_FLOAT), C(OPK_DOUBLE),
  C(OPK_TASK_ERROR), C(OPK_TASK_START), C(OPK_TASK_COMPUTE_FG), C(OPK_TASK_NEW_X),
  C(OPK_TASK_FINAL_X), C(OPK_TASK_WARNING),
  C(OPK_LNSRCH_ERROR), C(OPK_LNSRCH_SEARCH), C(OPK_LNSRCH_CONVERGENCE), C(OPK_LNSRCH_WARNING),
  C(OPK_NLCG_FLETCHER_REEVES), C(OPK_NLCG_HESTENES_STIEFEL), C(OPK_NLCG_POLAK_RIBIERE_POLYAK),
  C(OPK_NLCG_FLETCHER), C(OPK_NLCG_LIU_STOREY), C(OPK_NLCG_DAI_YUAN), C(OPK_NLCG_PERRY_SHANNO),
  C(OPK_NLCG_HAGER_ZHANG), C(OPK_NLCG_POWELL), C(OPK_NLCG_SHANNO_PHUA),
  C(OPK_BOUND_NONE), C(OPK_BOUND_SCALAR_FLOAT), C(OPK_BOUND_SCALAR_DOUBLE),
  C(OPK_BOUND_STATIC_FLOAT), C(OPK_BOUND_STATIC_DOUBLE), C(OPK_BOUND_VOLATILE_FLOAT),
  C(OPK_BOUND_VOLATILE_DOUBLE), C(OPK_BOUND_VECTOR),
  C(OPK_ASCENT), C(OPK_DESCENT),
  C(OPK_SCALING_NONE), C(OPK_SCALING_OREN_SPEDICATO), C(OPK_SCALING_BARZILAI_BORWEIN),
  C(OPK_LBFGS), C(OPK_VMLMB), C(OPK_BLMVM), C(OPK_ALGORITHM_NLCG), C(OPK_ALGORITHM_VMLMB),
  C(OPK_FMIN_BOUNDED_BY_A), C(OPK_FMIN_BOUNDED_BY_B), C(OPK_FMIN_SMOOTH), C(OPK_FMIN_ERROR),
  C(OPK_FMIN_START), C(OPK_FMIN_FX), C(OPK_FMIN_NEWX), C(OPK_FMIN_CONVERGENCE)
};
#define NTAB ((int)(sizeof(tab)/sizeof(tab[0])))

static int mentions(opk_status s, const char* word) { return has(opk_get_reason(s), word); }

int main(void)
{
  int i, j;
#if OP == 0 /* textual descriptions */
  int c = vp_int();
  const char* r = opk_get_reason((opk_status)c);
  vp_check(r != NULL, "not NULL");
  if (c >= 0 && c < OPK_MAX_STATUS) {
    vp_check(r[0] != 0, "known status has a description");
    for (i = 0; i < OPK_MAX_STATUS; ++i) {
      if (i != c) vp_check(strcmp(r, opk_get_reason((opk_status)i)) != 0, "descriptions are distinct");
    }
    vp_reach("known");
  } else {
    vp_check(r[0] == 0, "unknown status has an empty description");
    vp_reach("unknown");
  }
  vp_check(mentions(OPK_FTOL_TEST_SATISFIED, "function"), "description of OPK_FTOL_TEST_SATISFIED");
  vp_check(mentions(OPK_GTOL_TEST_SATISFIED, "gradient"), "description of OPK_GTOL_TEST_SATISFIED");
  vp_check(mentions(OPK_XTOL_TEST_SATISFIED, "variable"), "description of OPK_XTOL_TEST_SATISFIED");
  vp_check(mentions(OPK_STEP_EQ_STPMAX, "upper") && mentions(OPK_STEP_GT_STPMAX, "upper"), "upper bound");
  vp_check(mentions(OPK_STEP_EQ_STPMIN, "lower") && mentions(OPK_STEP_LT_STPMIN, "lower"), "lower bound");
  vp_check(mentions(OPK_TOO_MANY_EVALUATIONS, "evaluation") && mentions(OPK_TOO_MANY_ITERATIONS, "iteration"), "limits");
#elif OP == 1 /* errno codes */
  int c = vp_int();
  opk_status s = opk_guess_status(c);
  vp_check((s == OPK_INSUFFICIENT_MEMORY) == (c == ENOMEM), "no memory");
  vp_check((s == OPK_ILLEGAL_ADDRESS) == (c == EFAULT), "bad address");
  vp_check((s == OPK_INVALID_ARGUMENT) == (c == EINVAL), "invalid argument");
  if (c != ENOMEM && c != EFAULT && c != EINVAL) {
    vp_check(opk_get_reason(s)[0] == 0, "other codes do not correspond to a status");
    vp_reach("other");
  } else vp_reach("known");
#elif OP == 2 /* named constants, one character of the name being arbitrary */
  char name[64];
  long v = -12345, *ptr = vp_flip() ? &v : NULL;
  int n, found = -1;
  opk_status s;
  i = (int)vp_pick(0, NTAB - 1);
  n = (int)strlen(tab[i].name);
  memcpy(name, tab[i].name, n + 1);
  if (vp_flip()) {
    s = opk_get_integer_constant(name, ptr);
    vp_check(s == OPK_SUCCESS, "known constant");
    vp_check(v == (ptr == NULL ? -12345 : tab[i].value), "value of the constant");
    vp_reach("known");
    return 0;
  }
  j = (n >= 12 && vp_flip()) ? 11 : n - (int)vp_pick(0, 2);
  name[j] = (char)vp_u8();
  name[n + 1] = 0;
  s = opk_get_integer_constant(name, ptr);
  for (i = 0; i < NTAB; ++i) {
    if (strcmp(name, tab[i].name) == 0) found = i;
  }
  if (found < 0) {
    vp_check(s == OPK_INVALID_ARGUMENT && v == -12345, "unknown constant");
    vp_reach("unknown");
  } else {
    vp_check(s == OPK_SUCCESS && v == (ptr == NULL ? -12345 : tab[found].value), "value of the constant");
  }
  vp_check(opk_get_integer_constant(NULL, ptr) == OPK_INVALID_ARGUMENT, "no name");
  vp_check(opk_get_integer_constant("", ptr) == OPK_INVALID_ARGUMENT, "empty name");
  vp_check(opk_get_integer_constant("OPK_", ptr) == OPK_INVALID_ARGUMENT, "truncated name");
#elif OP == 3 /* copy of a string */
  char src[6], dst[8];
  int len = (int)vp_pick(0, 4), size = (int)vp_pick(0, 6), null = (int)vp_pick(0, 2), n;
  size_t r;
  for (i = 0; i < 6; ++i) src[i] = (char)vp_u8();
  for (i = 0; i < len; ++i) vp_assume(src[i] != 0);
  src[len] = 0;
  for (i = 0; i < 8; ++i) dst[i] = 'z';
  if (null == 1) len = 0;
  r = opk_copy_string(null == 2 ? NULL : dst, size, null == 1 ? NULL : src);
  vp_check(r == (size_t)len + 1, "number of bytes required");
  n = (null == 2 ? 0 : size);
  for (i = n; i < 8; ++i) vp_check(dst[i] == 'z', "bytes past the destination are untouched");
  if (n > 0) {
    int m = (len < n ? len : n - 1);
    for (i = 0; i < m; ++i) vp_check(dst[i] == src[i], "leading bytes are copied");
    vp_check(dst[m] == 0, "result is null-terminated");
    vp_reach("copied");
  }
#endif
  return 0;
}
