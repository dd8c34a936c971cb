// A clock of the harness's making. Jobs using it wrap clock_gettime.
#ifndef VP_CLOCK_H_
#define VP_CLOCK_H_
#include "vp.h"
#include <errno.h>
#include <time.h>
static int64_t vp_clock_sec = 1, vp_clock_nsec = 500000000;
static bool vp_clock_fails;
#ifdef VP_NATIVE
int VP_STUB(clock_gettime)(clockid_t id, struct timespec * t)
#else
int clock_gettime(clockid_t id, struct timespec * t)
#endif
{
  (void)id;
  if (vp_clock_fails) {errno = EINVAL; return -1;}
  t->tv_sec = vp_clock_sec; t->tv_nsec = vp_clock_nsec;
  return 0;
}
#endif
