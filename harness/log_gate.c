// Which log calls reach the output handler, with what, and the life cycle of the logging system.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static struct {size_t calls; const rcutils_log_location_t * where; int severity; const char * name; int64_t time; const char * format; int a; const char * b; uint64_t c;} got;
static void handler(const rcutils_log_location_t * where, int severity, const char * name, rcutils_time_point_value_t t, const char * format, va_list * args)
{
  got.calls++; got.where = where; got.severity = severity; got.name = name; got.time = t; got.format = format;
  got.a = va_arg(*args, int); got.b = va_arg(*args, const char *); got.c = va_arg(*args, uint64_t);
}
static void other(const rcutils_log_location_t * where, int severity, const char * name, rcutils_time_point_value_t t, const char * format, va_list * args)
{
  (void)where; (void)severity; (void)name; (void)t; (void)format; (void)args;
  VP_ASSERT(0, "a replaced handler is not called");
}
static bool same(const char * a, const char * b) {return strcmp(a, b) == 0;}
static void life(void)
{
  rcutils_allocator_t al = vp_allocator(), bad = al;
  switch (vp_choose(5)) {case 0: bad.allocate = NULL; break; case 1: bad.deallocate = NULL; break; case 2: bad.reallocate = NULL; break;
    case 3: bad.zero_allocate = NULL; break; default: bad = rcutils_get_zero_initialized_allocator();}
  VP_ASSERT(!g_rcutils_logging_initialized, "logging is not started at first");
  VP_ASSERT(rcutils_logging_initialize_with_allocator(bad) == RCUTILS_RET_INVALID_ARGUMENT && !g_rcutils_logging_initialized, "an incomplete allocator is refused");
  vp_alloc_arm(VP_ANY_FAIL, 0);
  rcutils_ret_t r = rcutils_logging_initialize_with_allocator(al);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(vp_failures > 0 && vp_live == 0, "starting fails only without memory, leaking nothing");
    VP_ASSERT(rcutils_error_is_set(), "with an error message");
    VP_COVER(1, "not started");
    rcutils_reset_error();
    (void)rcutils_logging_shutdown();
    vp_alloc_arm(VP_NEVER_FAIL, 0);
    VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "it can be started later");
  }
  VP_ASSERT(vp_failures == 0 && g_rcutils_logging_initialized, "logging is started");
  VP_ASSERT(rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler, "with the console as its output");
  VP_ASSERT(rcutils_logging_get_default_logger_level() == RCUTILS_LOG_SEVERITY_INFO, "and the default level");
  vp_alloc_arm(VP_NEVER_FAIL, 0);
  rcutils_logging_set_output_handler(handler);
  VP_ASSERT(rcutils_logging_set_logger_level("n", 10) == RCUTILS_RET_OK, "a level is set");
  rcutils_logging_set_default_logger_level(50);
  VP_ASSERT(rcutils_logging_initialize_with_allocator(vp_choose(2) ? bad : al) == RCUTILS_RET_OK, "starting it again has no effect");
  VP_ASSERT(rcutils_logging_initialize() == RCUTILS_RET_OK, "starting it again has no effect");
  VP_ASSERT(rcutils_logging_get_output_handler() == handler && rcutils_logging_get_logger_level("n") == 10 && rcutils_logging_get_default_logger_level() == 50, "nothing is lost");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && !g_rcutils_logging_initialized && vp_live == 0, "shutting down releases everything");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK, "once");
  // any use starts it again, as new
  switch (vp_choose(5)) {
    case 0: VP_ASSERT(rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler, "with the console as its output"); break;
    case 1: VP_ASSERT(rcutils_logging_get_default_logger_level() == RCUTILS_LOG_SEVERITY_INFO, "with the default level"); break;
    case 2: VP_ASSERT(rcutils_logging_get_logger_level("n") == 0, "without levels"); break;
    case 3: VP_ASSERT(!rcutils_logging_logger_is_enabled_for("n", 10) && rcutils_logging_logger_is_enabled_for("n", 20), "without levels"); break;
    default: rcutils_logging_set_output_handler(handler); VP_ASSERT(rcutils_logging_get_output_handler() == handler, "and the handler set"); break;
  }
  VP_ASSERT(g_rcutils_logging_initialized, "logging started itself");
  VP_ASSERT(vp_live == 0, "with the default allocator");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK, "logging shuts down");
}
void vp_main(void)
{
  if (vp_param("life", 0)) {life(); return;}
  rcutils_allocator_t al = vp_allocator();
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  rcutils_logging_set_output_handler(other);
  int deflt = (int)vp_range(1, 60), nl = 10 * (int)vp_byte_below(6), sev = (int)vp_in32();
  rcutils_logging_set_default_logger_level(deflt);
  VP_ASSERT(rcutils_logging_set_logger_level("n", nl) == RCUTILS_RET_OK, "a level is set");
  static const char * const names[] = {NULL, "", "n", "n.c", "nn", "m.n"};
  uint32_t ni = vp_choose(6);
  const char * name = names[ni];
  int e = (ni == 2 || ni == 3) && nl != 0 ? nl : deflt;
  rcutils_log_location_t loc = {"f", "g", 3};
  const rcutils_log_location_t * where = vp_choose(2) ? &loc : NULL;
  bool none = vp_choose(2);
  rcutils_logging_set_output_handler(none ? NULL : handler);
  VP_ASSERT(rcutils_logging_get_output_handler() == (none ? NULL : handler), "the handler is the one set last");
  vp_clock_fails = vp_choose(2);
  vp_clock_sec = (int64_t)vp_range(0, 4000000000u); vp_clock_nsec = (int64_t)vp_range(0, 999999999u);
  static const char format[] = "%d %s %lu";
  int a = (int)vp_in32(); uint64_t c = vp_in64();
  bool internal = vp_choose(2);
  if (internal) {rcutils_log_internal(where, sev, name, format, a, "text", c);} else {rcutils_log(where, sev, name, format, a, "text", c);}
  if (none || vp_clock_fails) {
    VP_ASSERT(got.calls == 0, "without a handler or the time there is no output"); VP_COVER(1, "no output");
  } else {
    VP_ASSERT(got.calls == ((internal || sev >= e) ? 1u : 0u), "a message reaches the handler once when its severity is enabled, and only then");
    if (got.calls) {
      VP_ASSERT(got.where == where && got.severity == sev && got.format == format && same(got.name, name ? name : ""), "the handler gets what was logged");
      VP_ASSERT(got.time == vp_clock_sec * 1000000000 + vp_clock_nsec, "with the current time");
      VP_ASSERT(got.a == a && same(got.b, "text") && got.c == c, "and its arguments");
      VP_COVER(!internal && sev == e, "at the level");
    } else {VP_COVER(sev + 1 == e, "below the level");}
  }
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
