// Splitting on the last delimiter, leading and trailing delimiter aside.
#include "vp_alloc.h"
#include "rcutils/split.h"
static void token(const char * t, const char * s, size_t b, size_t e)
{
  for (size_t i = b; i < e; ++i) {VP_ASSERT(t[i - b] == s[i], "tokens hold the characters around the last delimiter");}
  VP_ASSERT(t[e > b ? e - b : 0] == '\0', "tokens are null terminated where the delimiter was");
}
void vp_main(void)
{
  rcutils_string_array_t none = rcutils_get_zero_initialized_string_array();
  VP_ASSERT(rcutils_split_last(NULL, ',', vp_allocator(), &none) == RCUTILS_RET_OK && none.size == 0, "a null string has no tokens");
  VP_ASSERT(rcutils_string_array_fini(&none) == RCUTILS_RET_OK && vp_live == 0, "and leaks nothing");
  size_t n, L = vp_param("L", 6);
  char * s = vp_heap_text(L, &n);
  char d = vp_param("long", 0) ? ',' : (char)vp_in8();
  VP_ASSUME(d != '\0');
  if (vp_param("fail", 0)) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
  rcutils_ret_t r = rcutils_split_last(s, d, vp_allocator(), &t);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0, "splitting fails only when memory is refused");
    VP_ASSERT(vp_live == 0, "a failed split leaks nothing");
    VP_ASSERT(rcutils_string_array_fini(&t) == RCUTILS_RET_OK && vp_live == 0, "its array can be finalized");
    VP_COVER(vp_requests > 2, "a token failed");
    return;
  }
  VP_ASSERT(vp_failures == 0, "refused memory is reported");
  if (n == 0) {
    VP_ASSERT(t.size == 0, "an empty string has no tokens");
  } else {
    size_t b = s[0] == d ? 1 : 0, e = s[n - 1] == d ? n - 1 : n, at = n;
    if (e < b) {e = b;}
    for (size_t i = b; i < e; ++i) {if (s[i] == d) {at = i;}}
    if (at == n) {
      VP_ASSERT(t.size == 1, "one token without a delimiter to split on");
      token(t.data[0], s, b, e);
      VP_COVER(b > 0 && e < n, "delimiters around one token");
    } else {
      VP_ASSERT(t.size == 2, "two tokens around the last delimiter");
      size_t e0 = at > b && s[at - 1] == d ? at - 1 : at;
      token(t.data[0], s, b, e0);
      token(t.data[1], s, at + 1, e);
      VP_COVER(e0 < at, "doubled delimiter"); VP_COVER(e0 == b, "nothing before the delimiter");
    }
  }
  VP_ASSERT(rcutils_string_array_fini(&t) == RCUTILS_RET_OK, "fini succeeds");
  VP_ASSERT(vp_live == 0, "the array owns everything that was allocated");
}
