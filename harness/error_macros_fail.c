// The macros that format errors when formatting fails.
#include "vp_alloc.h"
#include "vp_capture.h"
#include "rcutils/error_handling.h"
static bool active;
#ifdef VP_NATIVE
int VP_REAL(vsnprintf)(char *, size_t, const char *, va_list);
#endif
int VP_STUB(vsnprintf)(char * b, size_t n, const char * f, va_list ap)
{
#ifdef VP_NATIVE
  if (!active) {return VP_REAL(vsnprintf)(b, n, f, ap);}
#endif
  VP_ASSERT(active, "only the macros format");
  (void)f; (void)ap;
  if (n) {b[0] = '!'; b[n - 1] = '\0';}
  return -1;
}
void vp_main(void)
{
  static const char text[] = "Failed to call snprintf for error message formatting\n";
  bool prev = vp_choose(2);
  uint32_t op = vp_choose(5);
  if (prev) {rcutils_set_error_state("old", "f", 1);}
  vp_capture_clear();
  active = true;
  switch (op) {
    case 0: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s", "x"); break;
    case 1: RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s", "x"); break;
    case 2: RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("x"); break;
    case 3: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING("%s", "x"); break;
    default: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s", "x"); break;
  }
  active = false;
  if (op == 2 && !prev) {
    VP_ASSERT(rcutils_error_is_set() && vp_err_out.n == 0, "without an earlier error a plain text needs no formatting");
    return;
  }
  VP_ASSERT(vp_contains(&vp_err_out, text, sizeof text - 1), "a failure to format is reported");
  for (size_t i = 0; i < vp_err_out.n; ++i) {VP_ASSERT(vp_err_out.text[i] != '!', "and an unformatted text is not printed");}
  if (rcutils_error_is_set()) {
    VP_ASSERT(prev && (op == 0 || op == 3), "no error is made of an unformatted text");
    VP_ASSERT(vp_same(rcutils_get_error_state()->message, "old", 4), "the earlier error stays");
  } else {VP_ASSERT(!prev || (op != 0 && op != 3), "an earlier error is not lost");}
}
