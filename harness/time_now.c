// C15: clock readings and unit conversions.
#include "vp.h"
#include <errno.h>
#include <time.h>
#include "rcutils/time.h"
static struct timespec clock_value;
static int clock_fails;
static unsigned calls;
static int last_clock;
int VP_STUB(clock_gettime)(clockid_t id, struct timespec * ts)
{
  calls++; last_clock = (int)id;
  if (clock_fails) {errno = EINVAL; return -1;}
  *ts = clock_value;
  return 0;
}
int vp_main(void)
{
  if (vp_param("conv", 0)) {
    // conversions, as macros on 64-bit and on narrower arguments
    int64_t s = (int64_t)vp_in64();
    const int64_t G = 1000000000LL;
    switch (vp_choose(7)) {
      case 0: VP_ASSERT(RCUTILS_S_TO_NS(s / 2 - s / 2) == 0, "the argument is one operand"); VP_ASSERT(RCUTILS_NS_TO_S(G + G) == 2 && RCUTILS_MS_TO_NS(1 + 1) == 2000000 && RCUTILS_US_TO_NS(1 + 1) == 2000 && RCUTILS_NS_TO_MS(G + G) == 2000 && RCUTILS_NS_TO_US(G + G) == 2000000 && RCUTILS_S_TO_NS(1 + 1) == 2 * G, "the argument may be an expression"); break;
      case 1: VP_ASSUME((s >= -9223372036LL) & (s <= 9223372036LL)); VP_ASSERT(RCUTILS_S_TO_NS(s) == s * G, "seconds to nanoseconds"); break;
      case 2: VP_ASSUME((s >= -9223372036854LL) & (s <= 9223372036854LL)); VP_ASSERT(RCUTILS_MS_TO_NS(s) == s * 1000000, "milliseconds to nanoseconds"); break;
      case 3: VP_ASSUME((s >= -9223372036854775LL) & (s <= 9223372036854775LL)); VP_ASSERT(RCUTILS_US_TO_NS(s) == s * 1000, "microseconds to nanoseconds"); break;
      case 4: VP_ASSERT(RCUTILS_NS_TO_S(s) == s / G, "nanoseconds to seconds"); VP_ASSERT(RCUTILS_NS_TO_MS(s) == s / 1000000, "nanoseconds to milliseconds"); VP_ASSERT(RCUTILS_NS_TO_US(s) == s / 1000, "nanoseconds to microseconds"); break;
      case 5: {
          int32_t n = (int32_t)vp_in32();
          VP_ASSERT(RCUTILS_S_TO_NS(n) == (int64_t)n * G && RCUTILS_MS_TO_NS(n) == (int64_t)n * 1000000 && RCUTILS_US_TO_NS(n) == (int64_t)n * 1000, "narrow arguments do not overflow");
          break;
        }
      default: {
          uint32_t n = vp_in32();
          VP_ASSERT(RCUTILS_S_TO_NS(n) == (int64_t)n * G && RCUTILS_MS_TO_NS(n) == (int64_t)n * 1000000 && RCUTILS_US_TO_NS(n) == (int64_t)n * 1000 && RCUTILS_NS_TO_S(n) == (int64_t)n / G, "unsigned narrow arguments do not overflow");
          break;
        }
    }
    return 0;
  }
  bool steady = vp_choose(2);
  rcutils_time_point_value_t now = (rcutils_time_point_value_t)vp_in64(), before = now;
  if (vp_choose(2)) {VP_ASSERT((steady ? rcutils_steady_time_now(NULL) : rcutils_system_time_now(NULL)) == RCUTILS_RET_INVALID_ARGUMENT && calls == 0, "NULL is refused"); return 0;}
  clock_fails = (int)vp_choose(2);
  clock_value.tv_sec = (time_t)vp_in64();
  clock_value.tv_nsec = (long)vp_in64();
  VP_ASSUME((clock_value.tv_nsec >= 0) & (clock_value.tv_nsec <= 999999999) & (clock_value.tv_sec < 9223372036LL));
  rcutils_ret_t r = steady ? RCUTILS_STEADY_TIME(&now) : rcutils_system_time_now(&now);
  if (r == RCUTILS_RET_OK) {
    VP_ASSERT(!clock_fails && clock_value.tv_sec >= 0, "a failing clock, or one before the epoch, is an error");
    VP_ASSERT(now == (int64_t)clock_value.tv_sec * 1000000000 + clock_value.tv_nsec, "the time is the clock's, in nanoseconds");
    if (steady) {VP_ASSERT(last_clock == CLOCK_MONOTONIC || last_clock == CLOCK_MONOTONIC_RAW || last_clock == CLOCK_BOOTTIME, "steady time comes from a clock that never goes back");}
    else {VP_ASSERT(last_clock == CLOCK_REALTIME, "system time is the time of day");}
    VP_COVER(now == INT64_MAX - 854775808 - 999999999, "a time near the end of the range");
  } else {
    VP_ASSERT(r == RCUTILS_RET_ERROR && (clock_fails || clock_value.tv_sec < 0), "a good reading is reported");
    VP_ASSERT(now == before, "on failure the output is left alone");
  }
  VP_ASSERT(calls >= 1, "every call reads the clock");
  return 0;
}
