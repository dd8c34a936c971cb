// Severities from their names, for any text.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static const char * const names[] = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
static char up(char c) {return (char)(c - 32 * ((c >= 'a') & (c <= 'z')));}
void vp_main(void)
{
  size_t L = vp_param("L", 6);
  rcutils_allocator_t al = vp_allocator();
  size_t n;
  char * s = vp_heap_text(L, &n);
  vp_readonly(s, 1);
  int want = -1;
  for (int i = 0; i < 6; ++i) {
    size_t m = strlen(names[i]);
    if (m != n) {continue;}
    bool same = true;
    for (size_t k = 0; k < n; ++k) {same = same & (up(s[k]) == names[i][k]);}
    want = same ? 10 * i : want;
  }
  if (vp_choose(2)) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  int sev = 7;
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(s, al, &sev);
  if (r == RCUTILS_RET_BAD_ALLOC) {
    VP_ASSERT(vp_failures > 0 && rcutils_error_is_set() && sev == 7, "memory was refused"); VP_COVER(1, "refused");
  } else if (want >= 0) {
    VP_ASSERT(r == RCUTILS_RET_OK && sev == want, "a severity name is recognised, in any case");
    VP_COVER(want == 0, "unset"); VP_COVER(s[0] == 'f' && s[1] == 'A', "mixed case");
  } else {
    VP_ASSERT(r == RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID && sev == 7, "any other text is refused");
  }
  VP_ASSERT(vp_live == 0, "nothing leaks");
  vp_alloc_arm(VP_NEVER_FAIL, 0);
  rcutils_reset_error();
  VP_ASSERT(rcutils_logging_severity_level_from_string(NULL, al, &sev) == RCUTILS_RET_INVALID_ARGUMENT, "no text"); rcutils_reset_error();
  VP_ASSERT(rcutils_logging_severity_level_from_string(s, al, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "no result"); rcutils_reset_error();
  VP_ASSERT(rcutils_logging_severity_level_from_string(s, rcutils_get_zero_initialized_allocator(), &sev) == RCUTILS_RET_INVALID_ARGUMENT, "no allocator");
}
