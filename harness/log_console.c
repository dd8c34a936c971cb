// The console handler: one line per message, of any length, whatever the severity and memory.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static void call(const rcutils_log_location_t * where, int severity, const char * name, const char * format, ...)
{
  va_list args;
  va_start(args, format);
  rcutils_logging_console_output_handler(where, severity, name, 42, format, &args);
  va_end(args);
}
void vp_main(void)
{
  bool fail = vp_param("fail", 0);
  rcutils_allocator_t al = vp_allocator();
  vp_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", "<{name}>{message}");
  bool colored = vp_choose(2);
  vp_env("RCUTILS_COLORIZED_OUTPUT", colored ? "1" : "0");
  vp_env("RCUTILS_LOGGING_USE_STDOUT", "1");
  bool started = vp_choose(2) != 0;
  VP_ASSUME(started | !colored);
  if (started) {VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");}
  size_t live = vp_live;
  int sev = (int)vp_in32();
  bool known = (sev == 10) | (sev == 20) | (sev == 30) | (sev == 40) | (sev == 50);
  static const size_t lens[] = {3, 0, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2048, 3000};
  size_t n = lens[vp_choose(17)], k = vp_choose(3);
  char * m = (char *)vp_heap_alloc(n + 1);
  memset(m, 'p', n);
  char x = (char)vp_in8();
  VP_ASSUME(x != 0);
  if (n) {m[n / 2] = m[0] = m[n - 1] = x;}
  m[n] = '\0';
  char name[4];
  vp_string_len(name, k);
  if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  call(NULL, sev, name, "%s", m);
  VP_ASSERT(vp_live == live, "nothing leaks");
  if (!started || !known) {
    VP_ASSERT(vp_std_out.n == 0 && vp_err_out.n > 0, "a message that cannot be shown is complained about");
    VP_COVER(started, "unknown severity"); VP_COVER(!started, "not started");
  } else if (vp_failures > 0) {
    VP_ASSERT(vp_std_out.n == 0 && vp_err_out.n > 0, "without memory there is no half message, but an error");
    VP_COVER(1, "refused");
  } else {
    const char * t = vp_std_out.text;
    size_t c = 0;
    if (colored) {
      c = sev == 20 ? 4 : 5;
      const char * code = sev == 10 ? "\033[32m" : sev == 20 ? "\033[0m" : sev == 30 ? "\033[33m" : "\033[31m";
      VP_ASSERT(vp_std_out.n > c && vp_same(t, code, c), "the colour is that of the severity");
    }
    size_t end = colored ? 4 : 0;
    VP_ASSERT(vp_std_out.n == c + k + 2 + n + end + 1, "the line holds the whole message");
    VP_ASSERT(t[c] == '<' && vp_same(t + c + 1, name, k) && t[c + 1 + k] == '>' && vp_same(t + c + 2 + k, m, n), "as formatted");
    VP_ASSERT(vp_same(t + c + 2 + k + n, "\033[0m", end) && t[c + 2 + k + n + end] == '\n', "and ends");
    VP_ASSERT(vp_err_out.n == 0, "nothing else is written");
    VP_COVER(n == 3000 && colored, "long message");
  }
  if (started) {vp_alloc_arm(VP_NEVER_FAIL, 0); VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");}
}
