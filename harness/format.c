// Formatting into a buffer and into a new string, up to a limit.
#include "vp_alloc.h"
#include <stdarg.h>
#include <errno.h>
#include "rcutils/format_string.h"
#include "rcutils/snprintf.h"
static size_t expect(char * out, const char * s, size_t n, char c)
{
  out[0] = '['; memcpy(out + 1, s, n); out[n + 1] = c; out[n + 2] = ']'; out[n + 3] = '\0';
  return n + 3;
}
void vp_main(void)
{
  size_t n, L = vp_param("L", 4);
  char want[5100];
  rcutils_allocator_t a = vp_allocator();
  char * s = vp_heap_text(L, &n);
  char c = (char)vp_in8();
  VP_ASSUME(c != '\0');
  size_t len = expect(want, s, n, c);
  if (vp_param("limit", 0)) {
    vp_alloc_arm(VP_ANY_FAIL, 0);
    uint64_t limit = vp_param("long", 0) ? (vp_choose(2) ? len - 1 + vp_choose(3) : 1 + vp_choose(2) * (len / 2)) : vp_in64();
    char * r = rcutils_format_string_limit(a, limit, "[%s%c]", s, c);
    if (!r) {
      VP_ASSERT((vp_failures > 0 || limit == 0) && vp_live == 0, "fails only when memory is refused");
    } else {
      size_t m = limit > len ? len : limit == 0 ? 0 : vp_concretize(limit) - 1;
      VP_ASSERT(vp_same(r, want, m) && r[m] == '\0', "the formatted string, cut to the limit, with its null byte");
      VP_ASSERT(vp_live == 1, "one block is handed out");
      VP_COVER(m < len, "truncated"); VP_COVER(m == len, "complete");
      vp_free(r);
    }
    vp_alloc_arm(VP_NEVER_FAIL, 0);
    VP_ASSERT(rcutils_format_string_limit(a, 10, NULL) == NULL, "null format refused");
    a.reallocate = NULL;
    VP_ASSERT(rcutils_format_string_limit(a, 10, "%s", s) == NULL && vp_live == 0, "incomplete allocator refused");
  } else {
    uint64_t cap = vp_in64();
    VP_ASSUME(cap <= len + 2 && (!vp_param("long", 0) || cap > len - 2 || cap < 2 || cap == len / 2));
    cap = vp_concretize(cap);
    char * buf = vp_heap_alloc(cap);
    int r = rcutils_snprintf(buf, cap, "[%s%c]", s, c);
    if (cap == 0) {
      VP_ASSERT(r < 0 && errno == EINVAL, "a buffer of no bytes is refused");
    } else {
      size_t m = len < cap ? len : cap - 1;
      VP_ASSERT(r == (int)len, "the length of the whole result is returned");
      VP_ASSERT(vp_same(buf, want, m) && buf[m] == '\0', "the buffer holds the result, cut to its size, null terminated");
      VP_COVER(m < len, "truncated");
    }
    VP_ASSERT(rcutils_snprintf(NULL, 0, "[%s%c]", s, c) == (int)len, "the length can be asked for");
    errno = 0;
    VP_ASSERT(rcutils_snprintf(NULL, 3, "[%s%c]", s, c) < 0 && errno == EINVAL, "a null buffer is refused");
    errno = 0;
    VP_ASSERT(rcutils_snprintf(buf, cap, NULL) < 0 && errno == EINVAL, "a null format is refused");
  }
}
