/* Names and descriptions of the optimizers. */
#include "optimpack.h"
#include "vp.h"
static int has(const char* text, const char* word)
{
  int i, j;
  for (i = 0; text[i] != 0; ++i) {
    for (j = 0; word[j] != 0 && text[i + j] == word[j]; ++j) ;
    if (word[j] == 0) return 1;
  }
  return 0;
}
#define N 12
typedef size_t getter(char* buf, size_t size, const void* opt);

static void check_text(getter* get, const void* opt, const char* w1, const char* w2, const char* w3)
{
  static char full[256], buf[256];
  size_t n, r, i, size;
  memset(full, 'z', sizeof(full));
  r = get(full, sizeof(full), opt);
  n = strlen(full);
  vp_check(n >= 1 && r == n + 1, "returned size is that of the text");
  if (w1) vp_check(has(full, w1), "text mentions the method");
  if (w2) vp_check(has(full, w2), "text mentions the options");
  if (w3) vp_check(has(full, w3), "text mentions the options");
  switch (vp_pick(0, 5)) {
  case 0: size = 0; break;
  case 1: size = 1; break;
  case 2: size = 2; break;
  case 3: size = n; break;
  case 4: size = n + 1; break;
  default: size = n + 2; break;
  }
  memset(buf, 'z', sizeof(buf));
  vp_check(get(buf, size, opt) == n + 1, "returned size does not depend on the buffer");
  for (i = 0; i + 1 < size && i < n; ++i) vp_check(buf[i] == full[i], "leading part of the text");
  if (size > 0) vp_check(buf[i] == 0, "text is null-terminated");
  for (i = (size > n + 1 ? n + 1 : size); i < sizeof(buf); ++i) vp_check(buf[i] == 'z', "bytes past the buffer are untouched");
  vp_check(get(NULL, size, opt) == n + 1, "required size is returned for a NULL buffer");
  vp_reach("checked");
}

static const char* methods[9] = { NULL, "Fletcher & Reeves", "Hestenes & Stiefel", "Polak", "Fletcher",
  "Liu & Storey", "Dai & Yuan", "Perry & Shanno", "Hager & Zhang" };

int main(void)
{
  opk_vspace* s = opk_new_simple_double_vector_space(N);
#if OP == 0 /* NLCG */
  opk_nlcg_options o;
  opk_nlcg* opt;
  int m = (int)vp_pick(1, 8), p = vp_flip(), q = vp_flip();
  int codes[9] = { 0, OPK_NLCG_FLETCHER_REEVES, OPK_NLCG_HESTENES_STIEFEL, OPK_NLCG_POLAK_RIBIERE_POLYAK,
    OPK_NLCG_FLETCHER, OPK_NLCG_LIU_STOREY, OPK_NLCG_DAI_YUAN, OPK_NLCG_PERRY_SHANNO, OPK_NLCG_HAGER_ZHANG };
  opk_get_nlcg_default_options(&o);
  o.flags = codes[m] | (p ? OPK_NLCG_POWELL : 0) | (q ? OPK_NLCG_SHANNO_PHUA : 0);
  opt = opk_new_nlcg_optimizer(&o, s, NULL);
  vp_check(opt != NULL, "optimizer created");
  check_text((getter*)opk_get_nlcg_description, opt, methods[m], p ? "Powell" : NULL, q ? "Phua" : NULL);
  { char b[8]; vp_check(opk_get_nlcg_name(b, 8, opt) == 5 && strcmp(b, "NLCG") == 0, "name"); }
  OPK_DROP(opt);
#elif OP == 1 /* VMLMB */
  opk_vmlmb_options o;
  opk_vmlmb* opt;
  opk_convexset* box = NULL;
  double b[1] = { 0 };
  char num[32];
  int bounded = vp_flip();
  opk_get_vmlmb_default_options(&o);
  o.mem = vp_pick(1, 12);
  o.blmvm = bounded && vp_flip();
  if (bounded) box = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, b, OPK_BOUND_NONE, NULL);
  opt = opk_new_vmlmb_optimizer(&o, s, NULL, box);
  vp_check(opt != NULL, "optimizer created");
  vp_check(opk_get_vmlmb_method(opt) == (!bounded ? OPK_LBFGS : o.blmvm ? OPK_BLMVM : OPK_VMLMB), "method");
  vp_check(has(opk_get_vmlmb_method_name(opt), !bounded ? "L-BFGS" : o.blmvm ? "BLMVM" : "VMLMB"), "name of the method");
  num[0] = ' ';
  if (o.mem >= 10) { num[1] = '1'; num[2] = '0' + (o.mem - 10); num[3] = ' '; num[4] = 0; }
  else { num[1] = '0' + o.mem; num[2] = ' '; num[3] = 0; }
  check_text((getter*)opk_get_vmlmb_description, opt, num, bounded ? "bounds" : NULL, NULL);
  if (!bounded) { char t[128]; opk_get_vmlmb_description(t, 128, opt); vp_check(!has(t, "bounds"), "no bounds"); }
  OPK_DROP(opt);
  OPK_DROP(box);
#else /* driver */
  int k = (int)vp_pick(0, 3);
  double b[N] = { 0, 0 };
  opk_optimizer* opt = opk_new_optimizer(k == 0 ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, NULL, OPK_DOUBLE, N,
    k == 2 ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, k == 2 ? b : NULL,
    k == 3 ? OPK_BOUND_STATIC_DOUBLE : OPK_BOUND_NONE, k == 3 ? b : NULL, NULL);
  char t[4];
  vp_check(opt != NULL, "optimizer created");
  if (vp_flip()) {
    check_text((getter*)opk_get_name, opt, k == 0 ? "NLCG" : k == 1 ? "L-BFGS" : "VMLMB", NULL, NULL);
  } else {
    check_text((getter*)opk_get_description, opt, k == 0 ? "updates" : "variable metric", k < 2 ? NULL : "bounds", NULL);
  }
  opk_destroy_optimizer(opt);
  t[0] = t[1] = 'z';
  vp_check(opk_get_name(t, 4, NULL) == 1 && t[0] == 0 && t[1] == 'z', "name without an optimizer");
  t[0] = t[1] = 'z';
  vp_check(opk_get_description(t, 4, NULL) == 1 && t[0] == 0 && t[1] == 'z', "description without an optimizer");
#endif
  OPK_DROP(s);
  vp_check(vp_live() == 0, "no leak");
  return 0;
}
