// Formatting when the C library itself fails, on any of its calls, or gives any length.
#include "vp_alloc.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include "rcutils/format_string.h"
#include "rcutils/snprintf.h"
#include "rcutils/time.h"
#include "rcutils/types/char_array.h"
static size_t calls, fail_at, length;
static bool failed;
#ifdef VP_NATIVE
int VP_REAL(vsnprintf)(char *, size_t, const char *, va_list);
static bool active;
#endif
int VP_STUB(vsnprintf)(char * b, size_t n, const char * f, va_list ap)
{
#ifdef VP_NATIVE
  if (!active) {return VP_REAL(vsnprintf)(b, n, f, ap);}
#endif
  (void)f; (void)ap;
  if (calls++ == fail_at) {failed = true; errno = EILSEQ; return -1;}
  size_t m = length < n ? length : n ? n - 1 : 0;
  if (n) {memset(b, 'x', m); b[m] = '\0';}
  return (int)length;
}
struct tm * VP_STUB(localtime_r)(const time_t * t, struct tm * r)
{
  (void)t;
  memset(r, 0, sizeof *r);
  r->tm_year = 100; r->tm_mday = 1;
  return r;
}
static rcutils_ret_t vs(rcutils_char_array_t * c, const char * format, ...)
{
  va_list ap;
  va_start(ap, format);
  rcutils_ret_t r = rcutils_char_array_vsprintf(c, format, ap);
  va_end(ap);
  return r;
}
static void body(void)
{
  rcutils_allocator_t a = vp_allocator();
  fail_at = vp_choose(3); length = vp_choose(5);
  switch (vp_choose(3)) {
    case 0: {
        size_t limit = vp_choose(7);
        vp_alloc_arm(VP_ANY_FAIL, 0);
        char * s = rcutils_format_string_limit(a, limit, "f");
        VP_ASSERT(vp_live == (s != NULL), "nothing leaks");
        VP_ASSERT((s == NULL) == (failed || vp_failures > 0 || limit == 0), "there is no string exactly when formatting fails, memory is refused or nothing may be written");
        if (s) {
          size_t m = length < limit ? length : limit - 1;
          for (size_t i = 0; i < m; ++i) {VP_ASSERT(s[i] == 'x', "the text formatted");}
          VP_ASSERT(s[m] == '\0', "and terminated");
          vp_free(s);
        }
        VP_COVER(failed && vp_requests == 0, "failed measuring"); VP_COVER(failed && vp_requests == 1, "failed formatting");
        break;
      }
    case 1: {
        rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
        size_t cap = vp_choose(4);
        VP_ASSERT(rcutils_char_array_init(&c, cap, &a) == RCUTILS_RET_OK, "init");
        bool had = cap > 2;
        if (had) {memcpy(c.buffer, "ab", 3); c.buffer_length = 3;}
        vp_alloc_arm(VP_ANY_FAIL, 0);
        rcutils_ret_t r = vs(&c, "f");
        if (failed) {
          VP_ASSERT(r == RCUTILS_RET_ERROR, "a failure to format is reported");
        } else if (vp_failures > 0) {
          VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC, "refused memory is reported");
        } else {
          VP_ASSERT(r == RCUTILS_RET_OK && c.buffer_length == length + 1 && c.buffer[length] == '\0', "and otherwise there is none");
        }
        VP_ASSERT(c.buffer_length <= c.buffer_capacity && (c.buffer != NULL || c.buffer_capacity == 0), "the array stays consistent");
        VP_COVER(failed && calls == 2, "failed in the grown buffer");
        vp_alloc_arm(VP_NEVER_FAIL, 0);
        VP_ASSERT(rcutils_char_array_strcpy(&c, "again") == RCUTILS_RET_OK && c.buffer_length == 6, "and usable");
        VP_ASSERT(rcutils_char_array_fini(&c) == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
        break;
      }
    default: {
        char b[8];
        fail_at = 0;
        int r = rcutils_snprintf(b, vp_choose(2) ? 8 : 1, "f");
        VP_ASSERT(r < 0, "a failure to format is reported");
        rcutils_time_point_value_t t = 5;
        calls = 0; failed = false;
        switch (vp_choose(3)) {
          case 0: r = rcutils_time_point_value_as_nanoseconds_string(&t, b, 8); break;
          case 1: r = rcutils_time_point_value_as_seconds_string(&t, b, 8); break;
          default: fail_at = vp_choose(3); r = rcutils_time_point_value_as_date_string(&t, b, 8); break;
        }
        VP_ASSERT(r == (failed ? RCUTILS_RET_ERROR : RCUTILS_RET_OK), "by printing a time, too");
        VP_COVER(!failed, "dates take two steps"); VP_COVER(failed && fail_at == 1, "the second failed");
        break;
      }
  }
}
void vp_main(void)
{
#ifdef VP_NATIVE
  active = true;
#endif
  body();
#ifdef VP_NATIVE
  active = false;
#endif
}
