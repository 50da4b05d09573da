/* Element type of the built-in spaces. */
#ifndef SPACE_H_
#define SPACE_H_ 1
#include "optimpack.h"
#include "vp.h"
#ifdef FLT
typedef float elt;
# define ELTYPE   OPK_FLOAT
# define ELMAX    FLT_MAX
# define NEWSPACE opk_new_simple_float_vector_space
# define DATA     opk_get_simple_float_vector_data
# define WRAP     opk_wrap_simple_float_vector
# define REWRAP   opk_rewrap_simple_float_vector
# define CDATA    opk_get_simple_float_vector_client_data
# define CFREE    opk_get_simple_float_vector_free_client_data
# define SYM()    vp_float()
#else
typedef double elt;
# define ELTYPE   OPK_DOUBLE
# define ELMAX    DBL_MAX
# define NEWSPACE opk_new_simple_double_vector_space
# define DATA     opk_get_simple_double_vector_data
# define WRAP     opk_wrap_simple_double_vector
# define REWRAP   opk_rewrap_simple_double_vector
# define CDATA    opk_get_simple_double_vector_client_data
# define CFREE    opk_get_simple_double_vector_free_client_data
# define SYM()    vp_double()
#endif
#endif
