/* Linear algebra: element type and names of the functions. */
#ifndef LA_H_
#define LA_H_ 1
#include "optimpack-linalg.h"
#include "vp.h"
#ifdef FLT
typedef float elt;
# define SYM() vp_float()
# define F(name) opk_s##name
# define IAMAX opk_isamax
#else
typedef double elt;
# define SYM() vp_double()
# define F(name) opk_d##name
# define IAMAX opk_idamax
#endif
/* moderate finite value */
static elt sym1(void)
{
  elt x = SYM();
  vp_assume((x >= -100) & (x <= 100));
  return x;
}
#endif
