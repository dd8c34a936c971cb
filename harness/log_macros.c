// The logging macros: every feature, severity and history of calls at one place, against their description.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging_macros.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static struct {size_t calls; int severity; const char * name; const char * function; const char * file; size_t line; int a; size_t errors;} got;
static bool clock_broken;
static void handler(const rcutils_log_location_t * where, int severity, const char * name, rcutils_time_point_value_t t, const char * format, va_list * args)
{
  (void)t;
  if (clock_broken && strcmp(format, "<%d>") != 0) {got.errors++; return;}       // the complaint about the clock
  got.calls++; got.severity = severity; got.name = name;
  VP_ASSERT(where != NULL && strcmp(format, "<%d>") == 0, "the place and the format are passed on");
  got.function = where->function_name; got.file = where->file_name; got.line = where->line_number;
  got.a = va_arg(*args, int);
}
static int expression_value; static size_t evaluations;
static int expression(void) {evaluations++; return expression_value;}
static bool filter(void) {evaluations++; return expression_value != 0;}
static int64_t now;
static rcutils_ret_t clock_(rcutils_time_point_value_t * t) {evaluations++; if (clock_broken) {return RCUTILS_RET_ERROR;} *t = now; return RCUTILS_RET_OK;}
static size_t line;
enum {PLAIN, ONCE, EXPRESSION, FUNCTION, SKIPFIRST, THROTTLE, SKIPFIRST_THROTTLE, VARIANTS};
#ifndef DURATION
#define DURATION 100
#endif
#define SITES(S, i) \
    case (i) * 14 + 2 * PLAIN: line = __LINE__; RCUTILS_LOG_ ## S("<%d>", v); break; \
    case (i) * 14 + 2 * PLAIN + 1: line = __LINE__; RCUTILS_LOG_ ## S ## _NAMED(name, "<%d>", v); break; \
    case (i) * 14 + 2 * ONCE: line = __LINE__; RCUTILS_LOG_ ## S ## _ONCE("<%d>", v); break; \
    case (i) * 14 + 2 * ONCE + 1: line = __LINE__; RCUTILS_LOG_ ## S ## _ONCE_NAMED(name, "<%d>", v); break; \
    case (i) * 14 + 2 * EXPRESSION: line = __LINE__; RCUTILS_LOG_ ## S ## _EXPRESSION(expression(), "<%d>", v); break; \
    case (i) * 14 + 2 * EXPRESSION + 1: line = __LINE__; RCUTILS_LOG_ ## S ## _EXPRESSION_NAMED(expression(), name, "<%d>", v); break; \
    case (i) * 14 + 2 * FUNCTION: line = __LINE__; RCUTILS_LOG_ ## S ## _FUNCTION(filter, "<%d>", v); break; \
    case (i) * 14 + 2 * FUNCTION + 1: line = __LINE__; RCUTILS_LOG_ ## S ## _FUNCTION_NAMED(filter, name, "<%d>", v); break; \
    case (i) * 14 + 2 * SKIPFIRST: line = __LINE__; RCUTILS_LOG_ ## S ## _SKIPFIRST("<%d>", v); break; \
    case (i) * 14 + 2 * SKIPFIRST + 1: line = __LINE__; RCUTILS_LOG_ ## S ## _SKIPFIRST_NAMED(name, "<%d>", v); break; \
    case (i) * 14 + 2 * THROTTLE: line = __LINE__; RCUTILS_LOG_ ## S ## _THROTTLE(clock_, DURATION, "<%d>", v); break; \
    case (i) * 14 + 2 * THROTTLE + 1: line = __LINE__; RCUTILS_LOG_ ## S ## _THROTTLE_NAMED(clock_, DURATION, name, "<%d>", v); break; \
    case (i) * 14 + 2 * SKIPFIRST_THROTTLE: line = __LINE__; RCUTILS_LOG_ ## S ## _SKIPFIRST_THROTTLE(clock_, DURATION, "<%d>", v); break; \
    case (i) * 14 + 2 * SKIPFIRST_THROTTLE + 1: line = __LINE__; RCUTILS_LOG_ ## S ## _SKIPFIRST_THROTTLE_NAMED(clock_, DURATION, name, "<%d>", v); break;
static void place(uint32_t which, const char * name, int v)
{
  switch (which) {
    SITES(DEBUG, 0)
    SITES(INFO, 1)
    SITES(WARN, 2)
    SITES(ERROR, 3)
    SITES(FATAL, 4)
  }
}
void vp_main(void)
{
  size_t K = vp_param("K", 3);
  rcutils_allocator_t al = vp_allocator();
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  rcutils_logging_set_output_handler(handler);
  uint32_t s = vp_choose(5), variant = vp_choose(VARIANTS), named = vp_choose(2), which = s * 14 + 2 * variant + named;
  int sev = 10 * ((int)s + 1);
  bool compiled = (int)s >= RCUTILS_LOG_MIN_SEVERITY;
  char name[2] = "n";
  size_t enabled_calls = 0, passed = 0;
  int64_t last = 0;
  bool any = false;
  if (vp_param("dur", 0)) {VP_ASSUME((variant == THROTTLE) | (variant == SKIPFIRST_THROTTLE));}
  for (size_t k = 0; k < K; ++k) {
    int level = (int)vp_range(1, 60), v = (int)vp_in32();
    rcutils_logging_set_default_logger_level(level);
    expression_value = (int)vp_in32();
    now = (int64_t)vp_range(0, (uint64_t)1 << 61);
    clock_broken = k + 1 == K && variant >= THROTTLE && vp_choose(2);
    got.calls = got.errors = evaluations = 0;
    place(which, name, v);
    bool enabled = compiled && sev >= level, want = enabled, sure = true;
    if (enabled) {
      int64_t D = (int64_t)DURATION * 1000000;
      bool pass = true;
      enabled_calls++;
      switch (variant) {
        case ONCE: want = enabled_calls == 1; break;
        case EXPRESSION: case FUNCTION: want = expression_value != 0; VP_ASSERT(evaluations == 1, "the condition is evaluated once"); break;
        case SKIPFIRST: want = enabled_calls > 1; break;
        case THROTTLE: case SKIPFIRST_THROTTLE:
          if (clock_broken) {
            VP_ASSERT(got.errors == (40 >= level ? 1u : 0u), "a clock that fails is complained about");
            VP_COVER(1, "no clock");
            sure = false;
          } else if (now - last == D || (!any && now < D)) {
            sure = false;                       // either is fine
            pass = variant == THROTTLE ? got.calls == 1 : false;
            VP_ASSUME(variant == THROTTLE);
          } else {
            pass = now - last > D;
          }
          if (pass) {any = true; last = now; passed++;}
          want = pass && (variant == THROTTLE || passed > 1);
          VP_COVER(k == 2 && want && enabled_calls == 3, "logged again later"); VP_COVER(k > 1 && !pass && now > last, "throttled");
          break;
        default: break;
      }
    } else {
      VP_ASSERT(evaluations == 0, "conditions are evaluated only when the severity is enabled");
    }
    if (sure) {VP_ASSERT(got.calls == (want ? 1u : 0u), "the message is logged exactly when the conditions of the macro hold");}
    if (got.calls) {
      VP_ASSERT(got.calls == 1 && enabled, "once");
      VP_ASSERT(got.severity == sev && strcmp(got.name, named ? "n" : "") == 0 && got.a == v, "with its severity, name and arguments");
      VP_ASSERT(strcmp(got.function, "place") == 0 && strcmp(got.file, __FILE__) == 0 && got.line == line, "and the place it was logged at");
    }
    VP_COVER(enabled && !want && variant == ONCE && k == 2, "only once");
    if (clock_broken) {break;}
  }
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
