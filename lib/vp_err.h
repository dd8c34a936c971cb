#ifndef VP_ERR_H_
#define VP_ERR_H_
#include <stdbool.h>
extern bool vp_error_set;
#endif
