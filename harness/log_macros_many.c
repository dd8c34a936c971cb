// The conditional logging macros at one place that is reached very often.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging_macros.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static size_t got, evaluations;
static void handler(const rcutils_log_location_t * where, int severity, const char * name, rcutils_time_point_value_t t, const char * format, va_list * args)
{
  (void)where; (void)severity; (void)name; (void)t; (void)format; (void)args;
  got++;
}
static bool wanted;
static bool filter(void) {evaluations++; return wanted;}
static int64_t now;
static rcutils_ret_t clock_(rcutils_time_point_value_t * t) {*t = now; return RCUTILS_RET_OK;}
static void place(uint32_t which)
{
  switch (which) {
    case 0: RCUTILS_LOG_INFO("x"); break;
    case 1: RCUTILS_LOG_INFO_ONCE("x"); break;
    case 2: RCUTILS_LOG_INFO_SKIPFIRST("x"); break;
    case 3: RCUTILS_LOG_INFO_FUNCTION(filter, "x"); break;
    case 4: RCUTILS_LOG_INFO_THROTTLE(clock_, 100, "x"); break;
    default: RCUTILS_LOG_INFO_SKIPFIRST_THROTTLE(clock_, 100, "x"); break;
  }
}
void vp_main(void)
{
  size_t N = vp_param("N", 300);
  rcutils_allocator_t al = vp_allocator();
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  rcutils_logging_set_output_handler(handler);
  uint32_t which = vp_choose(6);
  size_t off = vp_choose(3) * (N / 2);          // disabled for as many calls first
  int64_t start = vp_choose(2) ? 1000000000 : (int64_t)1 << 61, step = 30000000;
  size_t passed = 0;
  int64_t last = 0;
  wanted = vp_choose(2);
  rcutils_logging_set_default_logger_level(30);
  for (size_t k = 0; k < off; ++k) {now = start; place(which);}
  VP_ASSERT(got == 0 && evaluations == 0, "nothing is logged, or counted, while disabled");
  rcutils_logging_set_default_logger_level(20);
  for (size_t k = 0; k < N; ++k) {
    now = start + (int64_t)k * step;
    got = 0;
    place(which);
    bool want = true;
    switch (which) {
      case 1: want = k == 0; break;
      case 2: want = k > 0; break;
      case 3: want = wanted; break;
      case 4: case 5: {
          int64_t at = (int64_t)k * step;
          bool pass = passed == 0 || at - last >= 100000000;
          if (pass) {passed++; last = at;}
          want = pass && (which == 4 || passed > 1);
          break;
        }
      default: break;
    }
    VP_ASSERT(got == (want ? 1u : 0u), "the message is logged exactly when the conditions of the macro hold, however often");
  }
  VP_COVER(passed > 3, "throttled");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
