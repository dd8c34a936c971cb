// An environment of the harness's making. Jobs using it wrap getenv.
#ifndef VP_ENV_NONE_H_
#define VP_ENV_NONE_H_
#include "vp.h"
#include <stdlib.h>
static const char * vp_env_names[8], * vp_env_values[8];
static size_t vp_env_n;
static void vp_env(const char * n, const char * v) {vp_env_names[vp_env_n] = n; vp_env_values[vp_env_n] = v; vp_env_n++;}
#ifdef VP_NATIVE
char * VP_REAL(getenv)(const char *);
#endif
char * VP_STUB(getenv)(const char * n)
{
#ifdef VP_NATIVE
  if (n[0] == 'V' && n[1] == 'P') {return VP_REAL(getenv)(n);}
#endif
  for (size_t i = vp_env_n; i-- > 0; ) {if (strcmp(n, vp_env_names[i]) == 0) {return (char *)vp_env_values[i];}}
  return NULL;
}
#endif
