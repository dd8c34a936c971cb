// Configuration of the logging system from the environment, for any values of the variables.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
enum {EMPTY, ZERO, ONE, BAD, ABSENT};
static char text[4][4];
static int var(const char * name, size_t i)
{
  if (vp_choose(2) == 0) {return EMPTY;}
  char * s = text[i];
  size_t n = vp_string(s, 2);
  vp_env(name, s);
  if (n == 0) {return EMPTY;}
  if (n == 1 && s[0] == '0') {return ZERO;}
  if (n == 1 && s[0] == '1') {return ONE;}
  return BAD;
}
static bool quiet(const vp_stream_t * s) {return s->n == 0;}
void vp_main(void)
{
  rcutils_allocator_t al = vp_allocator();
  uint32_t before = vp_choose(3);
  if (before) {                                          // an earlier run, configured otherwise, leaves nothing behind
    const char * v = before == 1 ? "1" : "0";
    vp_env("RCUTILS_LOGGING_USE_STDOUT", v);
    vp_env("RCUTILS_LOGGING_BUFFERED_STREAM", v);
    vp_env("RCUTILS_COLORIZED_OUTPUT", v);
    vp_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", "{severity}");
    VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK && rcutils_logging_shutdown() == RCUTILS_RET_OK, "an earlier run");
    vp_env_n = 0; vp_setvbufs = 0; vp_capture_clear();
  }
  int use = var("RCUTILS_LOGGING_USE_STDOUT", 0), buffered = var("RCUTILS_LOGGING_BUFFERED_STREAM", 1), color = var("RCUTILS_COLORIZED_OUTPUT", 2);
  bool old = vp_choose(2);
  if (old) {vp_env("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED", "1");}
  vp_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", "m:{message}");
  vp_tty[1] = vp_choose(2); vp_tty[2] = vp_choose(2);
  vp_setvbuf_fails = vp_choose(2);
  rcutils_ret_t r = rcutils_logging_initialize_with_allocator(al);
  VP_ASSERT(!quiet(&vp_err_out) == old, "an outdated variable is warned about");
  bool bad = use == BAD || buffered == BAD || color == BAD, set = buffered == ZERO || buffered == ONE;
  if (bad || (set && vp_setvbuf_fails)) {
    VP_ASSERT(r != RCUTILS_RET_OK && rcutils_error_is_set(), "a value that is not understood is an error");
    VP_ASSERT(!bad || r == RCUTILS_RET_INVALID_ARGUMENT || (set && vp_setvbuf_fails && use != BAD), "an invalid argument");
    VP_COVER(bad, "bad value"); VP_COVER(!bad, "cannot set the buffering");
    rcutils_reset_error();
    (void)rcutils_logging_shutdown();
    VP_ASSERT(vp_live == 0, "nothing leaks");
    return;
  }
  VP_ASSERT(r == RCUTILS_RET_OK && !rcutils_error_is_set(), "logging starts");
  FILE * want = use == ONE ? stdout : stderr;
  VP_ASSERT(vp_setvbufs == (set ? 1u : 0u), "the buffering is set when asked for");
  if (set) {
    VP_ASSERT(vp_setvbuf_stream == want && vp_setvbuf_mode == (buffered == ONE ? _IOLBF : _IONBF), "of the stream used, to what is asked for");
    VP_COVER(1, "buffering");
  }
  vp_capture_clear();
  static const int sevs[] = {10, 20, 30, 40, 50};
  uint32_t si = vp_choose(5);
  rcutils_log_internal(NULL, sevs[si], "n", "%s", "hello");
  bool colored = color == ONE || (color == EMPTY && vp_tty[use == ONE ? 1 : 2]);
  static const char * const codes[] = {"\033[32m", "\033[0m", "\033[33m", "\033[31m", "\033[31m"};
  char line[64] = "";
  if (colored) {strcat(line, codes[si]);}
  strcat(line, "m:hello");
  if (colored) {strcat(line, "\033[0m");}
  strcat(line, "\n");
  const vp_stream_t * o = use == ONE ? &vp_std_out : &vp_err_out;
  VP_ASSERT(o->n == strlen(line) && vp_same(o->text, line, o->n), "the message is one line on the stream chosen, coloured as configured");
  VP_ASSERT(quiet(use == ONE ? &vp_err_out : &vp_std_out), "and nothing on the other");
  VP_COVER(colored && use == ONE, "coloured on stdout"); VP_COVER(!colored && color == ZERO && vp_tty[1], "colour off");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
