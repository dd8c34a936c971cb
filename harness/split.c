// Splitting on every delimiter, for every string and delimiter.
#include "vp_alloc.h"
#include "rcutils/split.h"
void vp_main(void)
{
  vp_zero_null = vp_choose(2);
  size_t n, L = vp_param("L", 6);
  char * s = vp_heap_text(L, &n);
  char d = vp_param("long", 0) ? ',' : (char)vp_in8();
  VP_ASSUME(d != '\0');
  if (vp_param("fail", 0)) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
  rcutils_ret_t r = rcutils_split(s, d, vp_allocator(), &t);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0, "splitting fails only when memory is refused");
    VP_ASSERT(vp_live == 0, "a failed split leaks nothing");
    VP_ASSERT(rcutils_string_array_fini(&t) == RCUTILS_RET_OK && vp_live == 0, "its array can be finalized");
    VP_COVER(vp_requests > 2, "a token failed");
    return;
  }
  VP_ASSERT(vp_failures == 0, "refused memory is reported");
  size_t k = 0, i = 0;
  for (;;) {
    while (i < n && s[i] == d) {++i;}
    if (i >= n) {break;}
    VP_ASSERT(k < t.size, "there is a token for every maximal run of other characters");
    size_t j = 0;
    while (i < n && s[i] != d) {
      VP_ASSERT(t.data[k][j] == s[i], "tokens hold the characters between delimiters, in order");
      ++i; ++j;
    }
    VP_ASSERT(t.data[k][j] == '\0', "tokens end where the delimiter was");
    ++k;
  }
  VP_ASSERT(k == t.size, "there are no other tokens");
  VP_COVER(k == 2, "two tokens"); VP_COVER(n > 0 && k == 0, "only delimiters");
  VP_ASSERT(rcutils_string_array_fini(&t) == RCUTILS_RET_OK, "fini succeeds");
  VP_ASSERT(vp_live == 0, "the array owns everything that was allocated");
  VP_ASSERT(rcutils_split(s, d, vp_allocator(), NULL) == RCUTILS_RET_INVALID_ARGUMENT, "a null array is refused");
  VP_ASSERT(rcutils_split(NULL, d, vp_allocator(), &t) == RCUTILS_RET_OK && t.size == 0, "a null string has no tokens");
}
